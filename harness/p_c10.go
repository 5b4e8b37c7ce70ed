package main

// C10 (configuration round trip) and C11 (interactive configuration).

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

func openConfig(dir string) facade.ConfigFacade {
	return facade.NewDfltConfigFacade(service.NewDfltConfigService(file.NewFileConfigRepo(dir)))
}

// settings is the model of a configuration.
type settings struct {
	Vault   string
	Notify  bool
	Timeout int
	Period  int
}

func (s settings) String() string {
	return fmt.Sprintf("{vault %q, notify %v, timeout %d, period %d}", s.Vault, s.Notify, s.Timeout, s.Period)
}

var defaultSettings = settings{"", true, 1, 1}

func toSettings(c *domain.Config) settings {
	return settings{c.Vault, c.UpdateNotify, c.Timeout, c.UpdatePeriod}
}

// yaml-sensitive path texts
var yamlTraps = []string{"", "~", "null", "Null", "true", "TRUE", "yes", "no", "y", "n", "on", "off", "1", "-1", "1e3", "0x1F", "012", "0o17", "1_000", "1.5", ".5", ".inf",
	".nan", "2021-01-01", "2021-01-01T10:00:00Z", "12:30", "190:20:30", "- a", "-", "---", "...", "a: b", "a:", ": a", "#x", "a #b", "a# b", "'", "''", "\"", "a'b", "%a", "@a", "`a",
	"!a", "!!int 1", "&a", "*a", "?", "? a", "|", ">", "|-\n a", "[a]", "{a: b}", "a, b", "<<", "=", " a", "a ", "  ", "\t", "a\tb", "a\nb", "a\n", "\na", "a\n\nb", "\r", "a\r\nb",
	"\\", "a\\nb", "/srv/vault.opvault", "~/1Password.opvault", "C:\\vault", "/mnt/my vault/x.opvault", "./rel", "../up", "/", "\u0085", "a\u2028b", "\ufeff", "\ufeffa", "\u00a0", "\u00e9\u4e16\U0001F600",
	"\x00", "\x1b[0m", "\x7f", "${HOME}", "$HOME", "!!binary aGk=", "opvault: x", "a b c"}

func genCfgPath(t *rapid.T, label string) string {
	switch intn(t, label+".k", 0, 9) {
	case 0, 1, 2:
		return pick(t, label+".trap", yamlTraps...)
	case 3:
		return pick(t, label+".t1", yamlTraps...) + pick(t, label+".t2", yamlTraps...)
	case 4:
		return "/srv/" + strings.Repeat(stringOf(t, label+".long", alLower+"   /:#'\"-", 1, 12), intn(t, label+".rep", 5, 60))
	case 5:
		return stringOf(t, label+".punct", " !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~a1\n\t", 1, 12)
	case 6:
		return genText(t, label+".any", true, true)
	}
	return "/home/" + stringOf(t, label+".plain", alLower+" ._-", 1, 20) + "/v.opvault"
}

type cfgVal struct {
	Vault   string `json:"v,omitempty"`
	Raw     []byte `json:"raw,omitempty"` // a path that is not valid UTF-8
	Notify  bool   `json:"n"`
	Timeout int    `json:"t"`
	Period  int    `json:"p"`
}

func (c *cfgVal) vault() string {
	if len(c.Raw) > 0 {
		return string(c.Raw)
	}
	return c.Vault
}

func genCfgVal(t *rapid.T, label string) cfgVal {
	c := cfgVal{Vault: genCfgPath(t, label), Notify: rapid.Bool().Draw(t, label+".n")}
	c.Timeout = pick(t, label+".t", 1, 30, intn(t, label+".tr", 1, 30))
	c.Period = pick(t, label+".p", 0, 1, 365, intn(t, label+".pr", 0, 365))
	if chance(t, label+".israw", 5) {
		c.Raw = append([]byte("/v/"), rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, label+".raw")...)
		if utf8.Valid(c.Raw) {
			c.Raw = append(c.Raw, 0xff)
		}
	}
	return c
}

type c10Case struct {
	Dir  string   `json:"dir"`  // "", missing, nested
	Init string   `json:"init"` // none, empty, blank, comment, partial, full
	Text string   `json:"text,omitempty"`
	Has  int      `json:"has,omitempty"` // bits: vault, notify, timeout, period
	Val  cfgVal   `json:"val"`
	Ops  []c10Op  `json:"ops"`
	Tail []string `json:"tail,omitempty"`
}

type c10Op struct {
	Save   cfgVal `json:"save"`
	Reopen bool   `json:"reopen,omitempty"`
	Change int    `json:"change,omitempty"` // >0: get the configuration, change these settings only (bits), save it
}

func genC10(t *rapid.T) c10Case {
	c := c10Case{Dir: pick(t, "dir", "", "", "missing", "nested")}
	if c.Dir == "" {
		c.Init = pick(t, "init", "none", "empty", "blank", "comment", "partial", "partial", "full")
	} else {
		c.Init = "none"
	}
	c.Val = genCfgVal(t, "init")
	c.Val.Raw = nil
	switch c.Init {
	case "partial":
		c.Has = intn(t, "has", 1, 15)
	case "full":
		c.Has = 15
	case "blank":
		c.Text = stringOf(t, "blank", " \n", 1, 5)
	case "comment":
		c.Text = pick(t, "comment", "# nothing here\n", "#", "\n# a\n\n# b\n", "---\n", "---\n# x\n", "{}\n", "~\n", "null\n")
	}
	if c.Has != 0 && chance(t, "extra", 40) {
		for i, k := 0, intn(t, "extra.n", 1, 3); i < k; i++ {
			v := pick(t, fmt.Sprintf("extra.%d", i), "1", "blue", "\n  a: 1\n  b: [x, y]", "[1, 2]", "true", "'true'", "\"yes\"", "0.25", "-7", "''", "~", "|\n  two\n  lines", "é 世界", "'a: b #c'", "2021-01-01", "0x1F", "2.5", "[]", "{}", "- not a list")
			if v == "- not a list" {
				v = "\n- a\n- b: 2"
			}
			key := pick(t, fmt.Sprintf("extra.%d.key", i), "other", "colour", "my-theme", "Opvault", "time-out", "update", "x.y", "'12'", "ключ") + strings.Repeat("x", i)
			if strings.HasPrefix(key, "'") {
				key = "'12" + strings.Repeat("x", i) + "'"
			}
			c.Tail = append(c.Tail, key+": "+v)
		}
	}
	n := intn(t, "n", 0, 4)
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("op%d", i)
		o := c10Op{Save: genCfgVal(t, l), Reopen: chance(t, l+".reopen", 40)}
		if chance(t, l+".chg", 40) {
			o.Change = intn(t, l+".bits", 1, 15)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func yamlPrintable(r rune) bool {
	switch {
	case r == '\n' || r == '\t' || (r >= 0x20 && r < 0x7f):
		return true
	case r == 0x2028 || r == 0x2029 || r == 0xfeff:
		return false
	}
	return (r >= 0xa0 && r <= 0xd7ff) || (r >= 0xe000 && r < 0xfffd) || r >= 0x10000
}

func runC10(e *Env, c *c10Case) (*Outcome, error) {
	dir := filepath.Join(e.CaseDir(), "cfg")
	switch c.Dir {
	case "missing":
	case "nested":
		dir = filepath.Join(e.CaseDir(), "a", "b c", "cfg")
	default:
		if err := os.MkdirAll(dir, 0o700); err != nil {
			return nil, err
		}
	}
	model, avail := defaultSettings, false
	text := c.Text
	if c.Has != 0 {
		avail = true
		a := &appConfig{}
		if c.Has&1 != 0 {
			if strings.IndexFunc(c.Val.Vault, func(r rune) bool { return !yamlPrintable(r) }) >= 0 {
				c.Val.Vault = "/plain" // the starting file is written by the harness: stay within what YAML allows
			}
			a.Vault, model.Vault = &c.Val.Vault, c.Val.Vault
		}
		if c.Has&2 != 0 {
			a.Notify, model.Notify = &c.Val.Notify, c.Val.Notify
		}
		if c.Has&4 != 0 {
			a.Timeout, model.Timeout = &c.Val.Timeout, c.Val.Timeout
		}
		if c.Has&8 != 0 {
			a.Period, model.Period = &c.Val.Period, c.Val.Period
		}
		text = a.text()
		if len(c.Tail) > 0 {
			text += strings.Join(c.Tail, "\n") + "\n"
		}
	}
	if c.Init != "none" {
		if err := os.WriteFile(filepath.Join(dir, domain.ConfigFile), []byte(text), 0o644); err != nil {
			return nil, err
		}
	}
	hist := []string{fmt.Sprintf("%s directory, file: %s", c.Dir, c.Init)}
	look := func(f facade.ConfigFacade, when string) error {
		if got := f.IsConfigAvailable(); got != avail {
			return violate("%v, %s: configured is %v, want %v", hist, when, got, avail)
		}
		if got := toSettings(f.GetConfig()); got != model {
			return violate("%v, %s: the configuration is %v, want %v", hist, when, got, model)
		}
		return nil
	}
	others := func() (map[string]any, error) {
		b, err := os.ReadFile(filepath.Join(dir, domain.ConfigFile))
		if err != nil {
			return nil, err
		}
		m := map[string]any{}
		if err := yaml.Unmarshal(b, &m); err != nil {
			return nil, err
		}
		for _, k := range []string{"opvault", "timeout", "update-notification", "update-period"} {
			delete(m, k)
		}
		return m, nil
	}
	var kept map[string]any
	if len(c.Tail) > 0 {
		var err error
		if kept, err = others(); err != nil {
			return nil, err
		}
	}
	f := openConfig(dir)
	if err := look(f, "at start"); err != nil {
		return nil, err
	}
	for _, o := range c.Ops {
		s := settings{o.Save.vault(), o.Save.Notify, o.Save.Timeout, o.Save.Period}
		if o.Change != 0 {
			k := f.GetConfig()
			if o.Change&1 != 0 {
				k.Vault, model.Vault = s.Vault, s.Vault
			}
			if o.Change&2 != 0 {
				k.UpdateNotify, model.Notify = s.Notify, s.Notify
			}
			if o.Change&4 != 0 {
				k.Timeout, model.Timeout = s.Timeout, s.Timeout
			}
			if o.Change&8 != 0 {
				k.UpdatePeriod, model.Period = s.Period, s.Period
			}
			f.SaveConfig(k)
		} else {
			model = s
			f.SaveConfig(domain.NewConfig(s.Timeout, s.Period, s.Notify, s.Vault))
		}
		avail = true
		hist = append(hist, "save "+model.String())
		if err := look(f, "same run"); err != nil {
			return nil, err
		}
		if err := look(openConfig(dir), "after a restart"); err != nil {
			return nil, err
		}
		if len(c.Tail) > 0 {
			got, err := others()
			if err != nil {
				return nil, violate("%v: the stored file cannot be read: %v", hist, err)
			}
			if !reflect.DeepEqual(got, kept) {
				return nil, violate("%v: the file's other entries are now %#v, were %#v", hist, got, kept)
			}
		}
		if o.Reopen {
			f = openConfig(dir)
			hist = append(hist, "restart")
		}
	}
	out := &Outcome{Nontrivial: len(c.Ops) > 0 || c.Has != 0, Sample: strings.Join(hist, "; ")}
	out.label("file: %s", c.Init)
	out.label("saves: %d", len(c.Ops))
	if len(c.Tail) > 0 && len(c.Ops) > 0 {
		out.label("other entries in the file")
	}
	return out, nil
}

// C10 through the program: what configure stored is what the next commands use and show.

type c10CliCase struct {
	Val    cfgVal `json:"val"`
	Second cfgVal `json:"second"`
	Prev   int    `json:"prev"` // bits of settings in the file before
}

func typedPath(t *rapid.T, label string) string {
	var s string
	switch intn(t, label+".k", 0, 5) {
	case 0, 1:
		s = pick(t, label+".trap", yamlTraps...)
	case 2:
		s = "/srv/" + strings.Repeat(stringOf(t, label+".long", alLower+"   /:#'\"-", 1, 12), intn(t, label+".rep", 5, 40))
	case 3:
		s = stringOf(t, label+".punct", " !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~a1", 1, 12)
	case 4:
		s = "/mnt/" + stringOf(t, label+".uni", "ąęл世界é ñ😀ß", 1, 12)
	default:
		s = "/home/" + stringOf(t, label+".plain", alLower+" ._-", 1, 20) + "/v.opvault"
	}
	return cleanPath(s)
}

// cleanPath makes a path that one line of input can carry (and that does not begin or end with blanks).
func cleanPath(s string) string {
	s = strings.Map(func(r rune) rune {
		if r < 0x20 || r == 0x7f || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r == 0xa0 {
			return -1
		}
		return r
	}, s)
	s = strings.TrimSpace(s)
	if s == "" {
		return "v"
	}
	return s
}

// ---- C11 ----

type c11Case struct {
	Has  int      `json:"has"`
	Val  cfgVal   `json:"val"`
	Ans  [][]byte `json:"ans"` // answer lines, in the order they are read
	Cut  bool     `json:"cut"` // the last line has no line break
	CRLF bool     `json:"crlf,omitempty"`
	TTY  bool     `json:"tty,omitempty"`
	Via  string   `json:"via,omitempty"` // configure, or first run of another command
}

func genYN(t *rapid.T, label string) string {
	return pick(t, label, "y", "Y", "n", "N", "y", "n", "", "yes", "no", "YES", "1", "0", "true", "ye", "yy", "x", "nie", "-", "5", "30", "y y", "y n", "n y", "yes please no", "а", "?", strings.Repeat("y", 300))
}

func genNum(t *rapid.T, label string, hi int) string {
	switch intn(t, label+".k", 0, 4) {
	case 0, 1:
		return strconv.Itoa(intn(t, label+".n", 0, hi))
	case 2:
		return pick(t, label+".edge", "0", "1", strconv.Itoa(hi), strconv.Itoa(hi+1), strconv.Itoa(hi-1), "-1", "-0", "2147483648", "4294967297", "4294967298", "18446744073709551617", "18446744073709551620", "99999999999999999999999")
	}
	return pick(t, label+".bad", "", "abc", "1.5", "5.0", "1e1", "0x5", "5s", "5 days", "5 6", "10 20", "y", "n", "５", "1,5", "--3", "- 3", "3-", "''", "1_0", "31", "366", "00x", "+5", "007", "1000", "6h", "NaN")
}

func genC11(t *rapid.T) c11Case {
	c := c11Case{Has: pick(t, "has", 0, 15, 15, intn(t, "hasbits", 1, 15)), Val: genCfgVal(t, "prev")}
	c.Val.Raw = nil
	c.Val.Vault = typedPath(t, "prevpath")
	c.TTY = chance(t, "tty", 30)
	set := genYN(t, "set")
	if chance(t, "setyes", 40) {
		set = pick(t, "sety", "y", "Y")
	}
	ans := []string{set}
	if strings.EqualFold(set, "y") {
		p := typedPath(t, "path")
		if chance(t, "blankpath", 12) {
			p = pick(t, "blankpath.v", "", " ", "\t", "   ")
		}
		ans = append(ans, p)
	}
	ans = append(ans, genYN(t, "notify"), genNum(t, "timeout", 30), genNum(t, "period", 365))
	if chance(t, "more", 10) {
		ans = append(ans, "y", "5")
	}
	if chance(t, "early", 25) {
		ans = ans[:intn(t, "keep", 0, len(ans))]
	}
	for _, a := range ans {
		c.Ans = append(c.Ans, []byte(a))
	}
	if !c.TTY && len(c.Ans) > 1 && strings.EqualFold(set, "y") && chance(t, "rawpath", 6) {
		c.Ans[1] = []byte("/v/\xff\xfe x\x80")
	}
	c.Cut = !c.TTY && chance(t, "cut", 20)
	c.CRLF = !c.TTY && chance(t, "crlf", 6)
	c.Via = pick(t, "via", "configure", "configure", "list")
	return c
}

// ynMeaning: 1 yes, 0 no, -1 invalid, -2 not specified by the property
func ynMeaning(a string) int {
	switch a {
	case "y", "Y":
		return 1
	case "n", "N":
		return 0
	}
	return -1
}

// numMeaning returns the value, or -1 (invalid), or -2 (spelling the property does not fix)
func numMeaning(a string, lo, hi int) int {
	if a == "" {
		return -1
	}
	for _, r := range a {
		if r < '0' || r > '9' {
			if a[0] == '+' || strings.TrimSpace(a) != a || a == "-0" || strings.Contains(a, "_") {
				return -2
			}
			return -1
		}
	}
	if len(a) > 1 && a[0] == '0' {
		return -2
	}
	v, err := strconv.Atoi(a)
	if err != nil || v < lo || v > hi {
		return -1
	}
	return v
}

func runC11(e *Env, c *c11Case) (*Outcome, error) {
	prev := defaultSettings
	var ac *appConfig
	if c.Has != 0 {
		ac = &appConfig{}
		if c.Has&1 != 0 {
			ac.Vault, prev.Vault = &c.Val.Vault, c.Val.Vault
		}
		if c.Has&2 != 0 {
			ac.Notify, prev.Notify = &c.Val.Notify, c.Val.Notify
		}
		if c.Has&4 != 0 {
			ac.Timeout, prev.Timeout = &c.Val.Timeout, c.Val.Timeout
		}
		if c.Has&8 != 0 {
			ac.Period, prev.Period = &c.Val.Period, c.Val.Period
		}
	}
	home, err := e.home("home", ac)
	if err != nil {
		return nil, err
	}
	// the model reads one line per question
	want, free := prev, 0
	q := 0
	next := func() (string, bool) {
		if q >= len(c.Ans) {
			return "", false
		}
		a := string(c.Ans[q])
		q++
		if c.Cut && q == len(c.Ans) && a == "" {
			return "", false
		}
		return a, true
	}
	valid := 0
	if a, ok := next(); ok && ynMeaning(a) == 1 {
		if p, ok := next(); ok && strings.TrimSpace(p) != "" {
			want.Vault = p
			valid++
		}
	}
	if a, ok := next(); ok {
		if m := ynMeaning(a); m >= 0 {
			want.Notify = m == 1
			valid++
		}
	}
	if a, ok := next(); ok {
		if m := numMeaning(a, 1, 30); m >= 0 {
			want.Timeout = m
			valid++
		} else if m == -2 {
			free |= 4
		}
	}
	if a, ok := next(); ok {
		if m := numMeaning(a, 0, 365); m >= 0 {
			want.Period = m
			valid++
		} else if m == -2 {
			free |= 8
		}
	}
	var in []byte
	for i, a := range c.Ans {
		in = append(in, a...)
		if !c.Cut || i < len(c.Ans)-1 {
			if c.CRLF {
				in = append(in, '\r')
			}
			in = append(in, '\n')
		}
	}
	args := []string{"configure"}
	if c.Has == 0 && c.Via == "list" {
		args = []string{"list", "-v", filepath.Join(home, "none")}
	}
	o := &runOpts{Args: args, Home: home}
	if c.TTY {
		o.Typed = string(in) + "\x04\x04\x04\x04\x04\x04\x04\x04"
	} else {
		o.UsePipe, o.Stdin = true, in
	}
	r, err := e.run(o)
	if err != nil {
		return nil, err
	}
	desc := fmt.Sprintf("previous %v, answers %q", prev, c.Ans)
	if r.TimedOut || r.crashed() {
		return nil, violate("%s: the program did not end properly: %s", desc, show(r.Out))
	}
	if !strings.Contains(r.Out, "1pass configured") {
		return nil, violate("%s: the configuration did not complete (exit %d): %s", desc, r.Exit, show(r.Out))
	}
	if args[0] == "configure" && r.Exit != 0 {
		return nil, violate("%s: exit status %d: %s", desc, r.Exit, show(r.Out))
	}
	f := openConfig(filepath.Join(home, ".config", "1pass"))
	if !f.IsConfigAvailable() {
		return nil, violate("%s: the application is still not configured", desc)
	}
	got := toSettings(f.GetConfig())
	cmp := got
	if free&4 != 0 {
		if got.Timeout < 1 || got.Timeout > 30 {
			return nil, violate("%s: the timeout became %d", desc, got.Timeout)
		}
		cmp.Timeout = want.Timeout
	}
	if free&8 != 0 {
		if got.Period < 0 || got.Period > 365 {
			return nil, violate("%s: the period became %d", desc, got.Period)
		}
		cmp.Period = want.Period
	}
	if cmp != want {
		return nil, violate("%s: the configuration became %v, want %v", desc, got, want)
	}
	out := &Outcome{Nontrivial: valid > 0 && len(c.Ans) > 0, Sample: desc + fmt.Sprintf(" -> %v", got)}
	out.label("valid answers: %d of %d", valid, len(c.Ans))
	if c.TTY {
		out.label("terminal")
	}
	if len(c.Ans) < 4 {
		out.label("input ends early")
	}
	return out, nil
}

// C10 cli: configure twice in new processes; the second one, left unanswered, must keep what the first stored.
func genC10Cli(t *rapid.T) c10CliCase {
	c := c10CliCase{Val: genCfgVal(t, "a"), Second: genCfgVal(t, "b"), Prev: pick(t, "prev", 0, 15, intn(t, "bits", 0, 15))}
	c.Val.Raw, c.Second.Raw = nil, nil
	c.Val.Vault, c.Second.Vault = typedPath(t, "pa"), typedPath(t, "pb")
	return c
}

func runC10Cli(e *Env, c *c10CliCase) (*Outcome, error) {
	var ac *appConfig
	if c.Prev != 0 {
		ac = &appConfig{}
		if c.Prev&1 != 0 {
			ac.Vault = &c.Second.Vault
		}
		if c.Prev&2 != 0 {
			ac.Notify = &c.Second.Notify
		}
		if c.Prev&4 != 0 {
			ac.Timeout = &c.Second.Timeout
		}
		if c.Prev&8 != 0 {
			ac.Period = &c.Second.Period
		}
	}
	home, err := e.home("home", ac)
	if err != nil {
		return nil, err
	}
	yn := func(b bool) string {
		if b {
			return "y"
		}
		return "n"
	}
	dir := filepath.Join(home, ".config", "1pass")
	want := settings{c.Val.Vault, c.Val.Notify, c.Val.Timeout, c.Val.Period}
	for i, in := range []string{
		fmt.Sprintf("y\n%s\n%s\n%d\n%d\n", c.Val.Vault, yn(c.Val.Notify), c.Val.Timeout, c.Val.Period),
		"n\n\n\n\n", "",
		fmt.Sprintf("n\n\n%d\n\n", c.Second.Timeout),
	} {
		if i == 3 {
			want.Timeout = c.Second.Timeout
		}
		r, err := e.run(&runOpts{Args: []string{"configure"}, Home: home, UsePipe: true, Stdin: []byte(in)})
		if err != nil {
			return nil, err
		}
		if r.crashed() || r.Exit != 0 {
			return nil, violate("run %d with answers %q failed: %s", i+1, in, show(r.Out))
		}
		if got := toSettings(openConfig(dir).GetConfig()); got != want {
			return nil, violate("after run %d of configure (answers %q) the configuration is %v, want %v", i+1, in, got, want)
		}
	}
	// the stored vault is the one the commands use
	r, err := e.run(&runOpts{Args: []string{"list"}, Home: home, UsePipe: true})
	if err != nil {
		return nil, err
	}
	if r.crashed() || r.Exit == 0 || !(strings.Contains(r.Out, want.Vault) || strings.Contains(r.Out, filepath.Clean(want.Vault))) {
		return nil, violate("list with the configured vault path %q (which does not exist) says %s", want.Vault, show(r.Out))
	}
	return &Outcome{Nontrivial: true, Sample: want.String()}, nil
}

func init() {
	register(&Property{ID: "C10", Technique: "property-based testing: stateful save/restart histories against a reference model of the settings",
		Rule:   "Histories of saves and restarts from generated starting states (directory or file absent, empty, blank, partial, full) with values that are hard for the file format; a case is non-trivial when something was saved or stored.",
		Assume: []string{"the file is written by the application or is well-formed YAML with values of the documented types", "saves are not interrupted"},
		Subs: []*Sub{
			mk("api", 50000, 500000, genC10, runC10),
			mk("configure", 2500, 25000, genC10Cli, runC10Cli),
		}})
	register(&Property{ID: "C11", Technique: "property-based testing: generated answer scripts on a pipe and a terminal against a line-per-question model",
		Rule:   "Answer scripts (valid, invalid, multi-word, out of range, missing answers, end of input) for generated previous configurations; non-trivial when at least one answer is valid.",
		Assume: []string{"spellings the property does not fix (sign, leading zeros, surrounding blanks) may be read either way but must stay in range"},
		Subs: []*Sub{
			mk("configure", 18000, 150000, genC11, runC11),
		}})
}
