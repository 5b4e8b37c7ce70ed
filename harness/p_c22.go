package main

// C22 (damaged configuration), C23 (leaving the GUI), C24 (wrong usage), C25 (first use), C26 (interrupted saving).

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

// ---- C22 ----

type c22Case struct {
	Kind   string            `json:"kind"`             // typed: members below; text: File as it is; dir, unreadable
	Memb   map[string]string `json:"memb,omitempty"`   // YAML value by setting
	File   []byte            `json:"file,omitempty"`   // whole content
	Stamp  string            `json:"stamp,omitempty"`  // time stamp file: "", dir, unreadable, or a text after "="
	Cmd    string            `json:"cmd"`              // version, categories, list, details, configure, gui
	Server string            `json:"server,omitempty"` // "" none, newer, silent
}

var c22Keys = []string{"opvault", "timeout", "update-notification", "update-period"}

func genYamlValue(t *rapid.T, label string) string {
	return pick(t, label, "5", "1", "30", "0", "-1", "-5", "'5'", "\"10\"", "2.5", "1e3", "abc", "true", "false", "yes", "'true'", "null", "~", "", "[]", "[1, 2]", "{}", "{a: b}", "{1: 2}",
		"99999999999999999999", "9223372036854775807", "-9223372036854775808", "0x1F", "2020-01-01", "!!str 5", "!!binary aGk=", "|\n  text\n", "'multi word'", "\"\\u0000\"", ".inf", ".nan", "1_0", "012", "3s", "1,5", "5 days")
}

func genC22(t *rapid.T) c22Case {
	c := c22Case{Cmd: pick(t, "cmd", "list", "list", "details", "categories", "version", "configure", "gui")}
	switch intn(t, "kind", 0, 9) {
	case 0, 1, 2, 3, 4, 5:
		c.Kind = "typed"
		c.Memb = map[string]string{}
		for _, k := range c22Keys {
			switch intn(t, k+".k", 0, 3) {
			case 0:
				c.Memb[k] = map[string]string{"opvault": "\"{vault}\"", "timeout": pick(t, "timeout.ok", "1", "2", "5", "30"), "update-notification": pick(t, "notify.ok", "true", "false"), "update-period": pick(t, "period.ok", "0", "1", "7", "365")}[k]
			case 1, 2:
				c.Memb[k] = genYamlValue(t, k)
			}
		}
		if chance(t, "other", 20) {
			c.Memb[pick(t, "otherkey", "other", "Timeout", "update_period", "vault", "''", "OPVAULT")] = genYamlValue(t, "otherval")
		}
	case 6, 7, 8:
		c.Kind = "text"
		c.File = []byte(pick(t, "text", "[", "]", "{", "a: b: c", "- a\n- b\n", "just text", "5", "true", "null", "~", "---\n", "---\n---\n", "...", "\t", "\ttimeout: 5", "timeout: 5\n timeout: 6", "timeout: 5\ntimeout: 6\n",
			"opvault: \"unclosed", "opvault: 'unclosed", "%YAML 9.9\n---\na: b", "&a [*a]", "a: &a [*a, *a]", "opvault: *undefined", "? [a]\n: b", "1: 2", "true: false", "null: x", "? {a: b}\n: c", "<<: 5", "<<: {timeout: 7}",
			"\xff\xfetimeout", "\xef\xbb\xbftimeout: 3\n", "\x00\x00\x00", "timeout: 3\r\nupdate-period: 2\r\n", "timeout: 3\x00", "\u2028", "!!python/object x", "!!map [a]", "!!int abc", "timeout: !!int x",
			strings.Repeat("[", 5000), strings.Repeat("{a: ", 3000), strings.Repeat("- ", 2000), strings.Repeat("a", 100000), "a: "+strings.Repeat("x", 70000), "timeout: 5\n<html>", "opvault: /x\n\n\n:::\n",
			"a: &a [x,x,x,x,x,x,x,x,x]\nb: &b [*a,*a,*a,*a,*a,*a,*a,*a,*a]\nc: &c [*b,*b,*b,*b,*b,*b,*b,*b,*b]\nd: &d [*c,*c,*c,*c,*c,*c,*c,*c,*c]\ne: &e [*d,*d,*d,*d,*d,*d,*d,*d,*d]\nf: &f [*e,*e,*e,*e,*e,*e,*e,*e,*e]\ng: [*f,*f,*f,*f,*f,*f,*f,*f,*f]\n"))
		if chance(t, "bytes", 30) {
			base := []byte("opvault: \"/home/x/vault\"\ntimeout: 5\nupdate-notification: true\nupdate-period: 3\n")
			for i, n := 0, intn(t, "nmut", 1, 4); i < n; i++ {
				p := intn(t, "pos", 0, len(base)-1)
				switch intn(t, "mut", 0, 3) {
				case 0:
					base = base[:p+1]
				case 1:
					base[p] = byte(intn(t, "b", 0, 255))
				case 2:
					base = append(base[:p:p], append([]byte(pick(t, "ins", ":", "-", " ", "\n", "\t", "'", "\"", "[", "{", "#", "&", "*", "!", "|", "\x00", "\xff")), base[p:]...)...)
				case 3:
					base = append(base[:p:p], base[min(len(base), p+5):]...)
					base = append(base, '\n')
				}
			}
			c.File = base
		}
	default:
		c.Kind = pick(t, "special", "dir", "unreadable")
	}
	if chance(t, "stamp", 25) {
		c.Stamp = pick(t, "stampv", "dir", "unreadable", "=", "=abc", "=99999999999999999999", "=-1", "=\x00", "="+strings.Repeat("9", 5000), "=1600000000", "=1.5")
	}
	c.Server = pick(t, "server", "", "", "newer", "newer", "same", "silent")
	if c.Server == "silent" && c.Cmd == "gui" {
		c.Server = "newer"
	}
	return c
}

// expected returns the settings a file of typed members stands for; judged says which of them are fixed.
func (c *c22Case) expected(vault string) (s settings, judged settings2) {
	s = defaultSettings
	judged = settings2{true, true, true, true}
	num := func(v string, lo, hi int, cur *int, j *bool) {
		switch v {
		case "5", "1", "30", "2", "7", "365", "0":
			n := 0
			fmt.Sscan(v, &n)
			if n >= lo && n <= hi {
				*cur = n
			} else if n > hi {
				*j = false
			}
		case "0x1F", "012", "1_0", "9223372036854775807": // integers of YAML 1.1
			*j = false
		}
	}
	for k, v := range c.Memb {
		switch k {
		case "opvault":
			switch v {
			case "\"{vault}\"":
				s.Vault = vault
			case "abc", "'multi word'", "'5'", "\"10\"", "'true'":
				s.Vault = strings.Trim(v, "'\"")
			case "null", "~", "":
			default:
				judged.Vault = false
			}
		case "timeout":
			num(v, 1, 30, &s.Timeout, &judged.Timeout)
		case "update-period":
			num(v, 0, 365, &s.Period, &judged.Period)
		case "update-notification":
			switch v {
			case "true", "false":
				s.Notify = v == "true"
			case "yes":
				judged.Notify = false
			}
		}
	}
	return s, judged
}

type settings2 struct{ Vault, Notify, Timeout, Period bool }

func runC22(e *Env, c *c22Case) (*Outcome, error) {
	v := VaultSpec{Password: "secret", Iter: 1, Items: []ItemSpec{{UID: "0123456789ABCDEF0123456789ABCDEF", Cat: "001", Title: sp("ttlAlpha"), Created: 1600000000, Updated: 1600000001}}}
	vdir := filepath.Join(e.CaseDir(), "v")
	if err := Seal(&v).Write(vdir); err != nil {
		return nil, err
	}
	home, err := e.home("home", nil)
	if err != nil {
		return nil, err
	}
	cdir := filepath.Join(home, ".config", "1pass")
	if err := os.MkdirAll(cdir, 0o700); err != nil {
		return nil, err
	}
	yml := filepath.Join(cdir, "1pass.yml")
	text := c.File
	if c.Kind == "typed" {
		var sb strings.Builder
		for _, k := range append(append([]string{}, c22Keys...), "other", "Timeout", "update_period", "vault", "''", "OPVAULT") {
			if x, ok := c.Memb[k]; ok {
				fmt.Fprintf(&sb, "%s: %s\n", k, strings.ReplaceAll(x, "{vault}", vdir))
			}
		}
		text = []byte(sb.String())
	}
	put := func(p, kind string, b []byte) error {
		switch kind {
		case "dir":
			return os.MkdirAll(p, 0o755)
		case "unreadable":
			if err := os.WriteFile(p, []byte("x: y"), 0o600); err != nil {
				return err
			}
			return os.Chmod(p, 0)
		}
		return os.WriteFile(p, b, 0o644)
	}
	if err := put(yml, c.Kind, text); err != nil {
		return nil, err
	}
	if c.Stamp != "" {
		if err := put(filepath.Join(cdir, "lastcheck"), c.Stamp, []byte(strings.TrimPrefix(c.Stamp, "="))); err != nil {
			return nil, err
		}
	}
	if err := e.chown(home); err != nil {
		return nil, err
	}
	what := fmt.Sprintf("1pass %s with the configuration file %s (%s), time stamp %q, server %q", c.Cmd, show(string(text)), c.Kind, c.Stamp, c.Server)
	o := &Outcome{Nontrivial: true, Sample: what}
	o.label("%s", c.Kind)
	o.label("%s", c.Cmd)

	// what the settings are
	wellFormed := c.Kind == "typed"
	for _, x := range c.Memb {
		if x == "{1: 2}" || x == "!!binary aGk=" || x == "\"\\u0000\"" || x == "99999999999999999999" || x == "{a: b}" {
			wellFormed = false // may or may not be readable as a whole
		}
	}
	if _, ok := c.Memb["''"]; ok {
		wellFormed = false
	}
	want, judged := c.expected(vdir)
	if wellFormed {
		got := toSettings(openConfig(cdir).GetConfig())
		if judged.Vault && got.Vault != want.Vault || judged.Notify && got.Notify != want.Notify || judged.Timeout && got.Timeout != want.Timeout || judged.Period && got.Period != want.Period {
			return nil, violate("%s: the settings are %v, want %v", what, got, want)
		}
		o.label("settings compared")
	}

	ver, err := e.runningVersion()
	if err != nil {
		return nil, err
	}
	sc := &Scenario{}
	switch c.Server {
	case "newer":
		sc.Releases = Resp{Body: relBody(&relSpec{Tag: bumpVersion(ver, 1), Assets: []string{"1pass.tar.gz", "checksum.md5"}})}
	case "same":
		sc.Releases = Resp{Body: relBody(&relSpec{Tag: ver, Assets: []string{"1pass.tar.gz", "checksum.md5"}})}
	case "silent":
		sc.Conn = "stall"
	}
	ro := &runOpts{Args: []string{c.Cmd}, Home: home, Limit: 60 * time.Second}
	if c.Server != "" {
		g, err := e.github(sc)
		if err != nil {
			return nil, err
		}
		ro.DNS, ro.CA = g.dnsAddr, g.caFile
	}
	if c.Server == "silent" && !(c.Kind != "typed" || judged.Timeout && want.Timeout <= 2) {
		return &Outcome{Labels: []string{"long timeout configured"}}, nil
	}
	switch c.Cmd {
	case "gui":
		g, err := e.startGUI(&guiOpts{Args: []string{"-v", vdir}, Home: home, Cols: 100, Rows: 24, DNS: ro.DNS, CA: ro.CA})
		if err != nil {
			return nil, err
		}
		defer g.close()
		asked := false
		ok := g.waitFor(func(sc *screen) bool {
			if !asked && strings.Contains(g.raw(), "1. Do you want") {
				asked = true
				g.send("n\nn\n1\n1\n")
			}
			return dialog(sc, "Password")
		}, 20*time.Second)
		if ok {
			g.send("secret\r")
			ok = g.waitFor(func(sc *screen) bool { return strings.Contains(sc.all(), "All (1)") }, 20*time.Second)
			if !ok {
				return nil, violate("%s: the vault does not open: %s", what, g.describe())
			}
			g.send("\x11")
			if !g.waitExit(10*time.Second) || g.exit != 0 || g.crashed() {
				return nil, violate("%s: the GUI does not end properly: %s", what, g.describe())
			}
			return o, nil
		}
		if g.crashed() || !g.dead() || g.exit == 0 {
			return nil, violate("%s: %s", what, g.describe())
		}
		if wellFormed {
			return nil, violate("%s: the GUI does not start: %s", what, g.describe())
		}
		o.label("refused")
		return o, nil
	case "configure":
		ro.UsePipe, ro.Stdin = true, []byte("n\ny\n7\n9\n")
	case "version", "categories":
		ro.UsePipe = true
	default:
		if c.Cmd == "details" {
			ro.Args = append(ro.Args, v.Items[0].UID)
		}
		ro.Args = append(ro.Args, "-v", vdir)
		ro.Password = &v.Password
		if len(c.Memb) == 0 {
			ro.Typed = "n\nn\n1\n1\n" // may count as a first run
		}
	}
	r, err := e.run(ro)
	if err != nil {
		return nil, err
	}
	if r.TimedOut {
		return nil, violate("%s does not end: %s", what, show(r.Out))
	}
	if r.crashed() {
		return nil, violate("%s crashes: %s", what, show(r.Out))
	}
	if r.Exit != 0 {
		if strings.TrimSpace(r.Out) == "" {
			return nil, violate("%s fails without a message", what)
		}
		if wellFormed && !(c.Stamp == "dir" || c.Stamp == "unreadable") {
			return nil, violate("%s fails although the file can be read: exit %d, %s", what, r.Exit, show(r.Out))
		}
		o.label("refused")
		return o, nil
	}
	bad := ""
	switch c.Cmd {
	case "version":
		if !strings.Contains(r.Out, ver) {
			bad = "no version"
		}
	case "categories":
		if err := checkCategories(r.Out); err != nil {
			bad = err.Error()
		}
	case "configure":
		got := toSettings(openConfig(cdir).GetConfig())
		if !got.Notify || got.Timeout != 7 || got.Period != 9 {
			bad = fmt.Sprintf("the settings are %v afterwards", got)
		}
	default:
		if !strings.Contains(r.afterPrompt(), "ttlAlpha") {
			bad = "the item is not shown"
		}
	}
	if bad != "" {
		return nil, violate("%s succeeds but %s: %s", what, bad, show(r.Out))
	}
	o.label("works")
	return o, nil
}

// ---- C23 ----

type c23Case struct {
	GUI   guiCase  `json:"gui"`
	Burst []string `json:"burst,omitempty"` // keys sent together with CTRL+Q
	Net   string   `json:"net,omitempty"`   // "" no such host, stall, newer
}

func genC23(t *rapid.T) c23Case {
	c := c23Case{GUI: guiCase{Vault: genGUIVault(t, 10)}}
	c.GUI.Cols, c.GUI.Rows = genGUISize(t)
	genGUIOps(t, &c.GUI, 0, 10, map[string][]string{
		gPrompt:  {"unlock", "unlock", "wrong"},
		gError:   {"ack", "junk"},
		gMain:    {"down", "up", "open", "open", "lock", "junk"},
		gItems:   {"down", "tab", "tab", "back", "lock", "junk"},
		gDetails: {"down", "right", "tab", "lock", "junk"},
	})
	if n := len(c.GUI.Ops); n > 0 {
		c.GUI.Ops = c.GUI.Ops[:intn(t, "keep", 0, n)]
	}
	if chance(t, "bursts", 50) {
		c.Burst = rapid.SliceOfN(rapid.SampledFrom([]string{"j", "k", "l", "h", "q", "\r", "\t", "\x0c", "x", "Z", "\x1bOA", "\x1bOB", "\x7f", " "}), 1, 6).Draw(t, "burst")
	}
	c.Net = pick(t, "net", "", "", "stall", "newer")
	return c
}

func (p *pty) termios(fd uintptr) (t syscall.Termios, err error) {
	err = ioctl(fd, syscall.TCGETS, unsafe.Pointer(&t))
	return
}

// restored demands that the ended GUI left the terminal as it was (started with Keep).
func (g *guiRun) restored(what string) error {
	now, err := g.pt.termios(g.keep.Fd())
	if err != nil {
		return err
	}
	state := func() (string, bool, bool) {
		g.mu.Lock()
		defer g.mu.Unlock()
		return fmt.Sprint(g.t.modes), g.t.modes["1049"] || g.t.modes["47"] || g.t.modes["1047"], g.t.hidden
	}
	for i := 0; i < 200; i++ { // until the last output has been read
		if _, alt, cursor := state(); !alt && !cursor {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	before := g.before
	now.Ispeed, now.Ospeed, before.Ispeed, before.Ospeed = 0, 0, 0, 0
	if !reflect.DeepEqual(now, before) {
		return violate("%s leaves the terminal in another mode: %+v, was %+v", what, now, before)
	}
	modes, alt, cursor := state()
	if alt {
		return violate("%s leaves the alternate screen switched on (%s)", what, modes)
	}
	if cursor {
		return violate("%s leaves the cursor hidden (%s)", what, modes)
	}
	return nil
}

func runC23(e *Env, c *c23Case) (*Outcome, error) {
	play := func(limit time.Duration) (*guiSess, error) {
		dir := filepath.Join(e.CaseDir(), fmt.Sprintf("v%d", limit))
		if err := Seal(&c.GUI.Vault).Write(dir); err != nil {
			return nil, err
		}
		home, err := e.home(fmt.Sprintf("home%d", limit), &appConfig{Vault: &dir, Notify: bp(false), Timeout: ip(30), Period: ip(1)})
		if err != nil {
			return nil, err
		}
		opts := &guiOpts{Home: home, Cols: c.GUI.Cols, Rows: c.GUI.Rows, Keep: true}
		if c.Net != "" {
			sc := &Scenario{Conn: "stall"}
			if c.Net == "newer" {
				sc = &Scenario{Releases: Resp{Body: relBody(&relSpec{Tag: "99.0.0", Assets: []string{"1pass.tar.gz", "checksum.md5"}})}}
			}
			gh, err := e.github(sc)
			if err != nil {
				return nil, err
			}
			opts.DNS, opts.CA = gh.dnsAddr, gh.caFile
		}
		g, err := e.startGUI(opts)
		if err != nil {
			return nil, err
		}
		defer g.close()
		s := &guiSess{g: g, cols: c.GUI.Cols, rows: c.GUI.Rows, dir: dir, cur: &c.GUI.Vault, first: &c.GUI.Vault, limit: limit, mode: gPrompt, labels: map[string]bool{}}
		if !g.waitFor(func(sc *screen) bool { return dialog(sc, "Password") }, 10*time.Second) {
			if g.dead() {
				return s, violate("the GUI does not start: %s", g.describe())
			}
			return s, fmt.Errorf("no password prompt: %s", g.describe())
		}
		for i := range c.GUI.Ops {
			if err := s.step(&c.GUI.Ops[i]); err != nil {
				if g.dead() {
					return s, violate("operation %d (%s): %v", i, c.GUI.Ops[i].Op, err)
				}
				return nil, nil // another property's matter
			}
		}
		s.labels["left from "+s.mode] = true
		keys := strings.Join(c.Burst, "") + "\x11"
		t0 := time.Now()
		g.send(keys)
		done := false
		select {
		case <-g.died:
			done = true
		case <-time.After(limit):
		}
		if !done {
			return s, violate("CTRL+Q (sent as %q on the %s screen) does not end the GUI within %v\n%s", keys, s.mode, time.Since(t0).Round(time.Second), g.describe())
		}
		if g.exit != 0 || g.crashed() {
			return s, violate("CTRL+Q (sent as %q on the %s screen) ends the GUI with an error: %s", keys, s.mode, g.describe())
		}
		if err := g.restored(fmt.Sprintf("CTRL+Q on the %s screen", s.mode)); err != nil {
			return s, err
		}
		return s, nil
	}
	s, err := play(5 * time.Second)
	if _, ok := err.(*Violation); ok {
		s, err = play(12 * time.Second)
	}
	if err != nil {
		return nil, err
	}
	if s == nil {
		return &Outcome{Labels: []string{"session not as expected"}}, nil
	}
	o := s.outcome(&c.GUI, len(c.GUI.Ops) > 0 || len(c.Burst) > 0)
	if c.Net != "" {
		o.label("network: %s", c.Net)
	}
	if len(c.Burst) > 0 {
		o.label("with other keys at once")
	}
	return o, nil
}

// ---- C24 ----

type c24Case struct {
	Args []string `json:"args"` // {vault}, {uid}
	Conf bool     `json:"conf"`
	Nfy  bool     `json:"nfy"`
	Help bool     `json:"help,omitempty"` // not wrong, but a request for help
}

func genC24(t *rapid.T) c24Case {
	c := c24Case{Conf: chance(t, "conf", 80), Nfy: chance(t, "nfy", 50)}
	cmd := pick(t, "cmd", "list", "overview", "details", "update", "configure", "categories", "version", "")
	if chance(t, "help", 10) {
		c.Help = true
		switch {
		case cmd == "":
			c.Args = []string{pick(t, "hflag0", "-h", "--help", "help")}
		case chance(t, "hcmd", 30):
			c.Args = []string{"help", cmd}
		default:
			c.Args = []string{cmd, pick(t, "hflag", "-h", "--help")}
			if cmd == "list" || cmd == "details" || cmd == "overview" {
				if chance(t, "hargs", 50) {
					c.Args = append(c.Args, pick(t, "harg", "-v={vault}", "-t", "--trashed"))
				}
				if cmd != "list" && chance(t, "huid", 50) {
					c.Args = append(c.Args, "{uid}")
				}
			}
		}
		return c
	}
	var ok []string // correct part
	switch cmd {
	case "":
	case "overview", "details":
		ok = []string{cmd, "{uid}"}
	default:
		ok = []string{cmd}
	}
	vaultCmd := cmd == "list" || cmd == "overview" || cmd == "details"
	if (vaultCmd || cmd == "") && chance(t, "vflag", 60) {
		ok = append(ok, pick(t, "vspell", "-v", "--vault"), "{vault}")
	}
	bad := []string{}
	switch intn(t, "wrong", 0, 5) {
	case 0, 1: // an unknown flag
		bad = []string{pick(t, "flag", "--nonsense", "-z", "-zt", "--vaults=x", "--trash", "--uid=x", "-T", "-V", "--version=1", "--force", "--yes", "-y", "--category-x", "-p", "--password=secret", "-1")}
		if vaultCmd && chance(t, "mixed", 30) {
			bad = []string{"-tz"}
		}
	case 2: // a missing flag value
		if cmd == "list" {
			bad = []string{pick(t, "noval", "-v", "--vault", "-c", "--category", "-n", "--name")}
		} else if vaultCmd || cmd == "" {
			bad = []string{pick(t, "noval", "-v", "--vault")}
		} else {
			bad = []string{"-v", "{vault}"} // a flag of other commands
		}
	case 3: // a malformed flag value
		if vaultCmd {
			bad = []string{pick(t, "badval", "--trashed=maybe", "-t=x", "--trashed=", "-t=2")}
		} else {
			bad = []string{"--trashed"}
		}
	case 4: // wrong number of arguments
		switch cmd {
		case "list", "":
			bad = rapid.SliceOfN(rapid.SampledFrom([]string{"extra", "{uid}", "lists", "remove", "delete", "List", "x y", "list2"}), 1, 3).Draw(t, "extra")
		case "overview", "details":
			if chance(t, "none", 50) {
				var w []string
				for _, a := range ok {
					if a != "{uid}" {
						w = append(w, a)
					}
				}
				c.Args = w
				return c
			}
			bad = []string{pick(t, "extraarg", "extra", "{uid}", "x y")}
		default:
			bad = []string{"-t"}
		}
	case 5: // an unknown command
		c.Args = []string{pick(t, "command", "lst", "detail", "show", "get", "LIST", "List", "Details", "upgrade", "config", "unlock", "ls", "li", "ver", "0123456789ABCDEF0123456789ABCDEF")}
		if chance(t, "cflags", 50) {
			c.Args = append(c.Args, "-v", "{vault}")
		}
		return c
	}
	at := len(ok)
	if len(bad) > 0 && strings.HasPrefix(bad[0], "-") && !strings.Contains("-v --vault -c --category -n --name", bad[0]) && len(ok) > 0 && chance(t, "middle", 30) {
		at = 1
		if cmd == "" {
			at = 0
		}
	}
	c.Args = append(append(append([]string{}, ok[:at]...), bad...), ok[at:]...)
	return c
}

func runC24(e *Env, c *c24Case) (*Outcome, error) {
	v := VaultSpec{Password: "secret", Iter: 1, Items: []ItemSpec{{UID: "0123456789ABCDEF0123456789ABCDEF", Cat: "001", Title: sp("ttlAlpha"), Created: 1600000000, Updated: 1600000001}}}
	vdir := filepath.Join(e.CaseDir(), "v")
	if err := Seal(&v).Write(vdir); err != nil {
		return nil, err
	}
	var cfg *appConfig
	if c.Conf {
		cfg = &appConfig{Vault: &vdir, Notify: bp(c.Nfy), Timeout: ip(1), Period: ip(0)}
	}
	home, err := e.home("home", cfg)
	if err != nil {
		return nil, err
	}
	g, err := e.github(&Scenario{Releases: Resp{Body: relBody(&relSpec{Tag: "99.0.0", Assets: []string{"1pass.tar.gz", "checksum.md5"}})}})
	if err != nil {
		return nil, err
	}
	var args []string
	for _, a := range c.Args {
		args = append(args, strings.NewReplacer("{vault}", vdir, "{uid}", v.Items[0].UID).Replace(a))
	}
	before, err := snapshot(home)
	if err != nil {
		return nil, err
	}
	r, err := e.run(&runOpts{Args: args, Home: home, Password: &v.Password, Typed: "y\n", DNS: g.dnsAddr, CA: g.caFile, Limit: 10 * time.Second})
	if err != nil {
		return nil, err
	}
	if r.TimedOut {
		return nil, violate("1pass %q is not rejected but runs: %s", args, show(r.Out))
	}
	if r.crashed() {
		return nil, violate("1pass %q crashes: %s", args, show(r.Out))
	}
	if r.Exit == 0 && !c.Help {
		return nil, violate("1pass %q ends with status 0: %s", args, show(r.Out))
	}
	if c.Help && (r.Exit != 0 || !strings.Contains(r.Out, "Usage:")) {
		return nil, violate("1pass %q does not show help (exit %d): %s", args, r.Exit, show(r.Out))
	}
	if strings.TrimSpace(strings.TrimPrefix(r.Out, "y")) == "" {
		return nil, violate("1pass %q is rejected without a message", args)
	}
	if r.Prompted || strings.Contains(r.Out, "ttlAlpha") || strings.Contains(r.Out, "\x1b[?1049h") {
		return nil, violate("1pass %q is not rejected but acts: %s", args, show(r.Out))
	}
	if g.connections() > 0 {
		return nil, violate("1pass %q contacts the release server", args)
	}
	after, err := snapshot(home)
	if err != nil {
		return nil, err
	}
	if d := diffSnap(before, after); d != "" {
		return nil, violate("1pass %q changes files: %s", args, d)
	}
	o := &Outcome{Nontrivial: true, Sample: fmt.Sprintf("%q: %s", c.Args, firstLine(r.Out))}
	if len(c.Args) > 0 {
		o.label("%s", c.Args[0])
	}
	return o, nil
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" && l != "y" {
			return l
		}
	}
	return ""
}

// ---- C25 ----

type c25Step struct {
	Cmd string `json:"cmd"`         // list, overview, details, gui, configure, categories, version, update
	V   int    `json:"v,omitempty"` // vault given with -v: 0 none, 1 first, 2 second
}

type c25Case struct {
	State  string    `json:"state"` // absent, nodir, empty, blank, comment
	SetV   int       `json:"setv"`  // vault answered: 0 none, 1 first, 2 second
	Notify int       `json:"notify"`
	Time   int       `json:"time"`
	Period int       `json:"period"`
	Steps  []c25Step `json:"steps"`
}

func genC25(t *rapid.T) c25Case {
	c := c25Case{State: pick(t, "state", "absent", "nodir", "empty", "blank", "comment"), SetV: intn(t, "setv", 0, 2), Notify: intn(t, "notify", -1, 1), Time: intn(t, "time", 0, 31), Period: intn(t, "period", -1, 366)}
	for i, n := 0, intn(t, "n", 1, 4); i < n; i++ {
		l := fmt.Sprintf("s%d", i)
		c.Steps = append(c.Steps, c25Step{Cmd: pick(t, l, "list", "overview", "details", "gui", "list", "details", "categories", "version", "update"), V: pick(t, l+".v", 0, 0, 1, 2)})
	}
	return c
}

func runC25(e *Env, c *c25Case) (*Outcome, error) {
	var dirs []string
	var vs []VaultSpec
	for i := 1; i <= 2; i++ {
		v := VaultSpec{Password: fmt.Sprintf("secret%d", i), Iter: 1, Items: []ItemSpec{{UID: "0123456789ABCDEF0123456789ABCDEF", Cat: "001", Title: sp(fmt.Sprintf("ttlof%d", i)), Created: 1600000000, Updated: 1600000001}}}
		d := filepath.Join(e.CaseDir(), fmt.Sprintf("the vault %d", i))
		if err := Seal(&v).Write(d); err != nil {
			return nil, err
		}
		dirs, vs = append(dirs, d), append(vs, v)
	}
	home, err := e.home("home", nil)
	if err != nil {
		return nil, err
	}
	cdir := filepath.Join(home, ".config", "1pass")
	yml := filepath.Join(cdir, "1pass.yml")
	if c.State != "nodir" {
		if err := os.MkdirAll(cdir, 0o700); err != nil {
			return nil, err
		}
		text := map[string]string{"empty": "", "blank": "\n  \n", "comment": "# nothing\n"}
		if x, ok := text[c.State]; ok {
			if err := os.WriteFile(yml, []byte(x), 0o644); err != nil {
				return nil, err
			}
		}
		if err := e.chown(home); err != nil {
			return nil, err
		}
	}
	want := defaultSettings
	ans := "n\n"
	if c.SetV > 0 {
		want.Vault = dirs[c.SetV-1]
		ans = "y\n" + want.Vault + "\n"
	}
	switch c.Notify {
	case 1:
		ans += "y\n"
	case 0:
		ans += "n\n"
		want.Notify = false
	default:
		ans += "\n"
	}
	ans += fmt.Sprintf("%d\n%d\n", c.Time, c.Period)
	if c.Time >= 1 && c.Time <= 30 {
		want.Timeout = c.Time
	}
	if c.Period >= 0 && c.Period <= 365 {
		want.Period = c.Period
	}
	asks := func(out string) bool { return strings.Contains(out, "1. Do you want to set default OPVault path?") }
	out := &Outcome{}
	out.label("state: %s", c.State)
	configured := false
	var hist []string
	for _, s := range c.Steps {
		args := []string{s.Cmd}
		vaultCmd := s.Cmd == "list" || s.Cmd == "overview" || s.Cmd == "details" || s.Cmd == "gui"
		switch s.Cmd {
		case "gui":
			args = nil
		case "overview", "details":
			args = append(args, vs[0].Items[0].UID)
		}
		eff := c.SetV
		if vaultCmd && s.V > 0 {
			eff = s.V
			args = append(args, "-v", dirs[s.V-1])
		}
		first := vaultCmd && !configured
		hist = append(hist, strings.Join(args, " "))
		what := fmt.Sprintf("starting with configuration %s: 1pass %s (answers %q)", c.State, strings.Join(hist, "; 1pass "), ans)
		pw := "none"
		if eff > 0 {
			pw = vs[eff-1].Password
		}
		var r *runResult
		opened := false
		if s.Cmd == "gui" {
			g, err := e.startGUI(&guiOpts{Args: args, Home: home, Cols: 90, Rows: 24})
			if err != nil {
				return nil, err
			}
			if first {
				if !g.waitFor(func(*screen) bool { return asks(g.raw()) }, 20*time.Second) {
					defer g.close()
					return nil, violate("%s: the questions of a first run are not asked: %s", what, g.describe())
				}
				g.send(ans)
			}
			if eff > 0 {
				if !g.waitFor(func(sc *screen) bool { return dialog(sc, "Password") }, 20*time.Second) {
					defer g.close()
					return nil, violate("%s: the GUI does not ask for the password: %s", what, g.describe())
				}
				g.send(pw + "\r")
				opened = g.waitFor(func(sc *screen) bool { return strings.Contains(sc.all(), "All (1)") }, 20*time.Second)
				if opened {
					g.send("\r")
					opened = g.waitFor(func(sc *screen) bool { return strings.Contains(sc.all(), *vs[eff-1].Items[0].Title) }, 20*time.Second)
				}
				g.send("\x11")
			}
			ended := g.waitExit(10 * time.Second)
			r = &runResult{TimedOut: !ended, Exit: g.exit, Out: g.raw(), Signal: g.sig}
			g.close()
		} else {
			ro := &runOpts{Args: args, Home: home, Password: &pw}
			if first {
				ro.Typed = ans
			} else if s.Cmd == "update" {
				ro.Typed = "n\n"
			}
			r, err = e.run(ro)
			if err != nil {
				return nil, err
			}
			if eff > 0 {
				opened = strings.Contains(r.afterPrompt(), *vs[eff-1].Items[0].Title)
			}
		}
		if r.TimedOut || r.crashed() {
			return nil, violate("%s: does not end properly (exit %d): %s", what, r.Exit, show(r.Out))
		}
		if asks(r.Out) != first {
			return nil, violate("%s: configuration questions asked: %v, want %v: %s", what, asks(r.Out), first, show(r.Out))
		}
		if first {
			configured = true
			out.Nontrivial = true
			out.label("first: %s", s.Cmd)
		}
		if configured {
			f := openConfig(cdir)
			if got := toSettings(f.GetConfig()); !f.IsConfigAvailable() || got != want {
				return nil, violate("%s: the configuration is %v, want %v", what, got, want)
			}
		} else if b, err := os.ReadFile(yml); err == nil && strings.TrimSpace(strings.ReplaceAll(string(b), "# nothing", "")) != "" {
			return nil, violate("%s: a configuration has been written: %s", what, show(string(b)))
		}
		if vaultCmd && eff > 0 && (!opened || r.Exit != 0) {
			return nil, violate("%s: the vault is not shown after the questions (exit %d): %s", what, r.Exit, show(r.Out))
		}
		if vaultCmd && eff == 0 && (r.Exit == 0 || !strings.Contains(r.Out, "invalid vault")) {
			return nil, violate("%s: without any vault the command ends with status %d: %s", what, r.Exit, show(r.Out))
		}
		if s.Cmd == "categories" {
			if err := checkCategories(r.Out); err != nil || r.Exit != 0 {
				return nil, violate("%s: exit %d, %v: %s", what, r.Exit, err, show(r.Out))
			}
		}
	}
	out.Sample = strings.Join(hist, "; ")
	return out, nil
}

// ---- C26 ----

type c26Case struct {
	Has    bool     `json:"has"` // there is a configuration already
	Prev   settings `json:"prev"`
	Next   settings `json:"next"`
	Inject string   `json:"inject"` // signal=KILL or error=...
	When   int      `json:"when"`
	Calls  string   `json:"calls"`
	Link   bool     `json:"link,omitempty"` // the configuration file is a symbolic link
	Mode   int      `json:"mode,omitempty"`
}

func genC26(t *rapid.T) c26Case {
	set := func(l string) settings {
		return settings{Vault: typedPath(t, l+".v"), Notify: chance(t, l+".n", 50), Timeout: intn(t, l+".t", 1, 30), Period: intn(t, l+".p", 0, 365)}
	}
	c := c26Case{Has: chance(t, "has", 80), Prev: set("prev"), Next: set("next"), When: intn(t, "when", 1, 40)}
	c.Inject = pick(t, "inject", "signal=KILL", "signal=KILL", "signal=KILL", "error=ENOSPC", "error=EIO", "error=EACCES", "error=EDQUOT")
	c.Calls = injectSet
	switch intn(t, "calls", 0, 3) {
	case 1:
		c.Calls = "write,pwrite64"
		c.When = intn(t, "when1", 1, 12)
	case 2:
		c.Calls = "rename,renameat,renameat2,ftruncate,truncate,fsync,unlink,unlinkat,chmod,fchmod,fchmodat"
		c.When = intn(t, "when2", 1, 4)
	case 3:
		c.Calls = "openat,close"
		c.When = intn(t, "when3", 1, 30)
	}
	c.Link = c.Has && chance(t, "link", 15)
	c.Mode = pick(t, "mode", 0o644, 0o644, 0o600, 0o640)
	return c
}

func runC26(e *Env, c *c26Case) (*Outcome, error) {
	if !e.canStrace() {
		return nil, fmt.Errorf("strace does not work here")
	}
	var cfg *appConfig
	if c.Has {
		cfg = &appConfig{Vault: &c.Prev.Vault, Notify: &c.Prev.Notify, Timeout: &c.Prev.Timeout, Period: &c.Prev.Period}
	}
	home, err := e.home("home", cfg)
	if err != nil {
		return nil, err
	}
	cdir := filepath.Join(home, ".config", "1pass")
	yml := filepath.Join(cdir, "1pass.yml")
	if c.Has {
		if err := os.Chmod(yml, os.FileMode(c.Mode)); err != nil {
			return nil, err
		}
	}
	if c.Link {
		if err := os.Rename(yml, filepath.Join(home, "dotfile.yml")); err != nil {
			return nil, err
		}
		if err := os.Symlink("../../dotfile.yml", yml); err != nil {
			return nil, err
		}
		if err := e.chown(home); err != nil {
			return nil, err
		}
	}
	yn := map[bool]string{true: "y", false: "n"}
	in := fmt.Sprintf("y\n%s\n%s\n%d\n%d\n", c.Next.Vault, yn[c.Next.Notify], c.Next.Timeout, c.Next.Period)
	prev := defaultSettings
	if c.Has {
		prev = c.Prev
	}
	r, err := e.run(&runOpts{Args: []string{"configure"}, Home: home, UsePipe: true, Stdin: []byte(in), Env: []string{"GOMAXPROCS=1"},
		Wrap: []string{"strace", "-f", "-q", "-o", "/dev/null", "-e", "trace=" + c.Calls, "-e", fmt.Sprintf("inject=%s:%s:when=%d", c.Calls, c.Inject, c.When)}})
	if err != nil {
		return nil, err
	}
	what := fmt.Sprintf("configure from %v (stored: %v) to %v, interrupted by %s at call %d of %s", prev, c.Has, c.Next, c.Inject, c.When, c.Calls)
	if r.TimedOut {
		return nil, violate("%s: does not end: %s", what, show(r.Out))
	}
	// read it by a fresh start of the program's own code
	f := openConfig(cdir)
	got, avail := toSettings(f.GetConfig()), f.IsConfigAvailable()
	o := &Outcome{Sample: what}
	o.label("%s", c.Inject)
	saved := strings.Contains(r.Out, "1pass configured")
	switch {
	case avail && got == c.Next:
		o.label("new settings")
	case avail == c.Has && got == prev:
		o.label("old settings")
		if saved && r.Exit == 0 && c.Next != prev {
			return nil, violate("%s: reported as configured, but the settings are the old ones", what)
		}
	default:
		return nil, violate("%s: the settings afterwards are %v (configured: %v), neither the old nor the new ones; exit %d, %s", what, got, avail, r.Exit, show(r.Out))
	}
	if c.Link {
		if fi, err := os.Lstat(yml); err != nil || fi.Mode()&os.ModeSymlink == 0 {
			return nil, violate("%s: the link to the configuration file has been replaced", what)
		}
	}
	if c.Has && !(c.Link) {
		if fi, err := os.Stat(yml); err != nil || fi.Mode().Perm() != os.FileMode(c.Mode) {
			return nil, violate("%s: the permissions of the configuration file changed from %o: %v", what, c.Mode, fi.Mode())
		}
	}
	o.Nontrivial = r.Exit != 0 || r.Signal != 0 || got == c.Next
	return o, nil
}

func init() {
	register(&Property{ID: "C22", Technique: "structured fuzzing of the configuration file (typed members, YAML structure, bytes) with a crash, hang and settings oracle",
		Rule:   "A case is a configuration file (members with values of every YAML type, malformed or hostile YAML, mutated bytes, a directory, unreadable), a time stamp file of any content, a release server (absent, answering, silent) and a command or the GUI. Non-trivial: every executed case.",
		Assume: []string{"numbers above the documented ranges, YAML 1.1 spellings of numbers and booleans, and vault paths that are no text are not judged", "silent servers are combined with usable or default timeouts of at most 2 seconds"},
		Subs:   []*Sub{mk("cli", 3000, 60000, genC22, runC22)}})
	register(&Property{ID: "C23", Technique: "property-based testing: generated GUI sessions left at a generated point, with the terminal's state as oracle",
		Rule:   "A case is a vault, a terminal size, a session of 0-9 operations, further keys sent in one burst with CTRL+Q and a release server (absent, silent, answering); exit status, time, terminal mode, alternate screen and cursor are compared. Non-trivial: sessions with at least one operation or burst.",
		Assume: []string{"an xterm"},
		Subs:   []*Sub{mk("session", 5000, 50000, genC23, runC23)}})
	register(&Property{ID: "C24", Technique: "property-based testing: generated wrong command lines with an inaction oracle (status, prompts, network, files)",
		Rule:   "A case is a command line that is wrong in one generated way (unknown command or flag, missing or malformed value, missing or surplus argument), or a request for help, with a right password and answer waiting; status, message, prompt, network and home directory are observed. Non-trivial: every case.",
		Assume: nil,
		Subs:   []*Sub{mk("cli", 15000, 120000, genC24, runC24)}})
	register(&Property{ID: "C25", Technique: "property-based testing: stateful histories from an unconfigured state against a model of configuration and vault choice",
		Rule:   "A case is a kind of missing configuration, answers to the questions and 1-4 commands or GUI sessions with or without -v; questions, stored settings and the work done afterwards are compared. Non-trivial: histories with a command that has to ask.",
		Assume: nil,
		Subs:   []*Sub{mk("cli", 7000, 60000, genC25, runC25)}})
	register(&Property{ID: "C26", Technique: "fault injection: the configure command is killed or made to fail at generated system calls",
		Rule:   "A case is a stored configuration (or none, or behind a link), new answers, and a fault (kill, disk full, I/O error) at the n-th system call of a kind; the settings read afterwards must be the old or the new ones. Non-trivial: the fault ended the command or the new settings are stored.",
		Assume: []string{"a crash of the program, not of the machine (no loss of buffered writes)"},
		Subs:   []*Sub{mk("configure", 8000, 60000, genC26, runC26)}})
}
