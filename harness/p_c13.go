package main

// C13 (when update checks happen), C14 (version comparison), C15 (misbehaving release server).

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// release is one entry of the release list the server publishes.
type relSpec struct {
	Tag       string   `json:"tag"`
	Changelog string   `json:"log,omitempty"`
	Assets    []string `json:"assets,omitempty"` // names; the url is /dl/<index>/<name>
	Order     int      `json:"order,omitempty"`
}

func assetPath(i int, name string) string { return fmt.Sprintf("/dl/%d/%s", i, name) }

func relValue(r *relSpec) map[string]any {
	as := []any{}
	for i, n := range r.Assets {
		as = append(as, map[string]any{"id": 1000 + i, "name": n, "content_type": "application/gzip", "size": 100,
			"browser_download_url": "https://github.com" + assetPath(i, n), "uploader": map[string]any{"login": "x"}})
	}
	return map[string]any{"id": 1, "tag_name": r.Tag, "name": "Release " + r.Tag, "draft": false, "prerelease": false, "body": r.Changelog,
		"assets": as, "tarball_url": "https://api.github.com/tar", "author": map[string]any{"login": "mashmb"}}
}

func relBody(rs ...*relSpec) []byte {
	l := []any{}
	for _, r := range rs {
		l = append(l, relValue(r))
	}
	b, _ := json.Marshal(l)
	return b
}

var versionRe = regexp.MustCompile(`[0-9]+(\.[0-9]+)+`)
var versionCache string

// runningVersion is what the version command says.
func (e *Env) runningVersion() (string, error) {
	if versionCache == "" {
		h, err := e.home("vhome", nil)
		if err != nil {
			return "", err
		}
		r, err := e.run(&runOpts{Args: []string{"version"}, Home: h, UsePipe: true})
		if err != nil {
			return "", err
		}
		versionCache = versionRe.FindString(r.Out)
		if versionCache == "" {
			return "", fmt.Errorf("no version in %q", r.Out)
		}
	}
	return versionCache, nil
}

var announceRe = regexp.MustCompile(`New version of 1pass is available \(([^)]*)\)`)

// announced returns the version a command announces, "" for none.
func announced(out string) string {
	m := announceRe.FindStringSubmatch(out)
	if m == nil {
		return ""
	}
	s := m[1]
	if i := strings.Index(s, "available:"); i >= 0 {
		s = s[i+len("available:"):]
	}
	return strings.TrimSpace(s)
}

var catNames = func() []string {
	var l []string
	for _, n := range Cats {
		l = append(l, n)
	}
	return l
}()

func checkCategories(out string) error {
	rows := 0
	for _, l := range strings.Split(out, "\n") {
		cells := strings.FieldsFunc(l, func(r rune) bool { return r == '║' || r == '│' || r == '|' })
		if len(cells) == 2 {
			if _, err := strconv.Atoi(strings.TrimSpace(cells[0])); err == nil {
				rows++
			}
		}
	}
	if rows != len(catNames) {
		return fmt.Errorf("%d categories are listed", rows)
	}
	for _, n := range catNames {
		if !strings.Contains(out, n) {
			return fmt.Errorf("category %s is not listed", n)
		}
	}
	return nil
}

// ---- C13 ----

type c13Step struct {
	Cmd     string  `json:"cmd"`           // categories, configure, list, overview, details, update
	Notify  *bool   `json:"n,omitempty"`   // rewrite the configuration
	Period  *int    `json:"p,omitempty"`   //
	Stamp   *string `json:"s,omitempty"`   // put this into the time stamp file ("" empty file)
	AgeS    *int64  `json:"age,omitempty"` // or: a time stamp of this age, seconds (negative: in the future)
	NoStamp bool    `json:"del,omitempty"` // or: remove it
	Server  string  `json:"server"`        // newer, same, older, or a failure
	NL      bool    `json:"nl,omitempty"`  // time stamp with surrounding white space
}

type c13Case struct {
	Unconf bool      `json:"unconf,omitempty"` // starts without a configuration
	Notify bool      `json:"notify"`
	Period int       `json:"period"`
	Steps  []c13Step `json:"steps"`
	Pw     string    `json:"pw"`
	TZ     string    `json:"tz"`
}

func genAge(t *rapid.T, label string, period int) int64 {
	off := int64(pick(t, label+".off", 120, 600, 7000, 43200, 86280, 50000))
	d := int64(pick(t, label+".day", period, period-1, period+1, 0, 1, intn(t, label+".any", 0, 400), 3650))
	if d < 0 {
		d = 0
	}
	age := d*86400 + off
	if chance(t, label+".future", 15) {
		age = -age
	}
	return age
}

func genC13(t *rapid.T) c13Case {
	c := c13Case{Unconf: chance(t, "unconf", 15), Notify: chance(t, "notify", 75), Period: pick(t, "period", 0, 1, 1, 2, 7, 30, 365, intn(t, "anyp", 0, 365)), Pw: "correct horse"}
	c.TZ = pick(t, "tz", "UTC", "UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati")
	n := intn(t, "n", 1, 5)
	p := c.Period
	if c.Unconf {
		p = 1
	}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("s%d", i)
		s := c13Step{Cmd: pick(t, l+".cmd", "categories", "categories", "categories", "list", "overview", "details", "configure", "update", "gui")}
		if chance(t, l+".cfg", 25) {
			s.Notify = bp(chance(t, l+".notify", 60))
			p = pick(t, l+".period", 0, 1, 2, 5, 14, 365)
			s.Period = ip(p)
		}
		switch intn(t, l+".stamp", 0, 9) {
		case 0, 1, 2, 3:
			a := genAge(t, l+".age", p)
			s.AgeS = &a
			s.NL = chance(t, l+".nl", 20)
		case 4:
			s.NoStamp = true
		case 5:
			s.Stamp = sp(pick(t, l+".garbage", "", "abc", "12abc", "1.7e9", "0x60000000", "99999999999999999999", "-", "2024-01-01", "\x00", "17 17", "\n", "null"))
		}
		s.Server = pick(t, l+".server", "newer", "newer", "same", "older", "error500", "html", "object", "close", "cut", "notjson")
		c.Steps = append(c.Steps, s)
	}
	return c
}

func bumpVersion(v string, d int) string {
	p := strings.Split(v, ".")
	n, _ := strconv.Atoi(p[0])
	if d < 0 && n == 0 {
		return "0.0.0"
	}
	p[0] = strconv.Itoa(n + d)
	return strings.Join(p, ".")
}

func runC13(e *Env, c *c13Case) (*Outcome, error) {
	ver, err := e.runningVersion()
	if err != nil {
		return nil, err
	}
	v := VaultSpec{Password: c.Pw, Iter: 1, Items: []ItemSpec{{UID: "0123456789ABCDEF0123456789ABCDEF", Cat: "001", Title: sp("Alpha"), Created: 1600000000, Updated: 1600000001}}}
	vdir := filepath.Join(e.CaseDir(), "v")
	if err := Seal(&v).Write(vdir); err != nil {
		return nil, err
	}
	configured := !c.Unconf
	notify, period := true, 1
	mkcfg := func() *appConfig {
		return &appConfig{Vault: &vdir, Notify: bp(notify), Timeout: ip(10), Period: ip(period)}
	}
	var home string
	if configured {
		notify, period = c.Notify, c.Period
		home, err = e.home("home", mkcfg())
	} else {
		home, err = e.home("home", nil)
	}
	if err != nil {
		return nil, err
	}
	cdir := filepath.Join(home, ".config", "1pass")
	stampFile := filepath.Join(cdir, "lastcheck")
	put := func(name string, b []byte) error {
		if err := os.MkdirAll(cdir, 0o700); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(cdir, name), b, 0o644); err != nil {
			return err
		}
		return e.chown(home)
	}
	var hist []string
	contacts := 0
	out := &Outcome{}
	for i := range c.Steps {
		s := &c.Steps[i]
		if s.Notify != nil && s.Period != nil && configured {
			notify, period = *s.Notify, *s.Period
			if err := put("1pass.yml", []byte(mkcfg().text())); err != nil {
				return nil, err
			}
		}
		switch {
		case s.AgeS != nil:
			txt := fmt.Sprint(time.Now().Unix() - *s.AgeS)
			if s.NL {
				txt = " " + txt + "\n"
			}
			if err := put("lastcheck", []byte(txt)); err != nil {
				return nil, err
			}
		case s.Stamp != nil:
			if err := put("lastcheck", []byte(*s.Stamp)); err != nil {
				return nil, err
			}
		case s.NoStamp:
			os.Remove(stampFile)
		}
		sc := &Scenario{}
		tag, ok := "", true
		switch s.Server {
		case "newer":
			tag = bumpVersion(ver, 1)
		case "same":
			tag = ver
		case "older":
			tag = bumpVersion(ver, -1)
		default:
			ok = false
		}
		good := relBody(&relSpec{Tag: tag, Changelog: "changes", Assets: []string{"1pass.tar.gz", "checksum.md5"}}, &relSpec{Tag: "0.9.0"})
		switch s.Server {
		case "error500":
			sc.Releases = Resp{Status: 500, Body: []byte("oops")}
		case "html":
			sc.Releases = Resp{Body: []byte("<html></html>")}
		case "object":
			sc.Releases = Resp{Status: 403, Body: []byte(`{"message":"API rate limit exceeded"}`)}
		case "close":
			sc.Conn = "close"
		case "cut":
			sc.Releases = Resp{Body: good, CutAt: len(good) / 2}
		case "notjson":
			sc.Releases = Resp{Body: good[:len(good)-3]}
		default:
			sc.Releases = Resp{Body: good}
		}
		g, err := e.github(sc)
		if err != nil {
			return nil, err
		}
		// the model's view of the time stamp
		before, rerr := os.ReadFile(stampFile)
		due := func(notify bool, period int, before []byte, have bool) bool {
			if !notify {
				return false
			}
			if !have {
				return true
			}
			ts, err := strconv.ParseInt(strings.TrimSpace(string(before)), 10, 64)
			if err != nil {
				return true
			}
			d := time.Now().Unix() - ts
			if d < 0 {
				d = -d
			}
			return d/86400 >= int64(period)
		}
		want := due(notify, period, before, rerr == nil)
		if s.Cmd == "update" || s.Cmd == "gui" {
			want = true
		}
		o := &runOpts{Args: []string{s.Cmd}, Home: home, DNS: g.dnsAddr, CA: g.caFile, TZ: c.TZ}
		vaultCmd := false
		first := false
		switch s.Cmd {
		case "list":
			vaultCmd = true
		case "overview", "details":
			vaultCmd = true
			o.Args = append(o.Args, v.Items[0].UID)
		}
		switch {
		case vaultCmd && !configured:
			// a first run: the configuration questions come first, then the command
			o.Args = append(o.Args, "-v", vdir)
			o.Password = &c.Pw
			o.Typed = "n\ny\n10\n1\n"
			first = true
		case vaultCmd:
			o.Password = &c.Pw
		case s.Cmd == "configure":
			o.UsePipe, o.Stdin = true, []byte("\n\n10\n\n")
		default:
			o.UsePipe, o.Stdin = true, []byte("n\n")
		}
		t0 := time.Now().Unix()
		var r *runResult
		if s.Cmd == "gui" {
			r, err = e.guiCheck(&guiOpts{Args: []string{"-v", vdir}, Home: home, DNS: g.dnsAddr, CA: g.caFile, TZ: c.TZ, Cols: 130, Rows: 24}, map[bool]string{true: "n\ny\n10\n1\n"}[!configured])
			first = !configured
		} else {
			r, err = e.run(o)
		}
		if err != nil {
			return nil, err
		}
		t1 := time.Now().Unix()
		hist = append(hist, fmt.Sprintf("%s (configured %v, notify %v, period %d, time stamp %s, server %s)", s.Cmd, configured, notify, period, stampText(before, rerr), s.Server))
		what := strings.Join(hist, "; ")
		if r.TimedOut || r.crashed() {
			return nil, violate("%s: fails: %s", what, show(r.Out))
		}
		got := g.connections() > 0
		if got != want {
			return nil, violate("%s: the release server was contacted: %v, want %v", what, got, want)
		}
		if want {
			contacts++
		}
		after, aerr := os.ReadFile(stampFile)
		if want && ok {
			ts, perr := strconv.ParseInt(strings.TrimSpace(string(after)), 10, 64)
			if aerr != nil || perr != nil || ts < t0-2 || ts > t1+2 {
				return nil, violate("%s: a successful check between %d and %d left the time stamp %s", what, t0, t1, stampText(after, aerr))
			}
		} else if (aerr == nil) != (rerr == nil) || string(after) != string(before) {
			return nil, violate("%s: without a successful check the time stamp changed from %s to %s", what, stampText(before, rerr), stampText(after, aerr))
		}
		if an, wn := announced(r.Out), want && s.Server == "newer"; wn != (an != "") || (wn && an != tag) {
			return nil, violate("%s: announced version %q, newest %q: %s", what, an, tag, show(r.Out))
		}
		if s.Cmd != "update" && r.Exit != 0 {
			return nil, violate("%s: exit status %d: %s", what, r.Exit, show(r.Out))
		}
		if s.Cmd == "configure" || first {
			configured = true
			if first {
				notify, period = true, 1
			}
			// what is stored now is what the answers said: nothing but the timeout
			if got := toSettings(openConfig(cdir).GetConfig()); got.Notify != notify || got.Period != period {
				return nil, fmt.Errorf("harness: configuration is %v after %s", got, what)
			}
			if first || c.Unconf {
				if err := put("1pass.yml", []byte(mkcfg().text())); err != nil {
					return nil, err
				}
			}
		}
		out.label("%s", s.Cmd)
		out.label("server: %s", s.Server)
		if want {
			out.label("contacted")
		} else {
			out.label("not contacted")
		}
	}
	out.Nontrivial = contacts > 0 || len(c.Steps) > 1
	out.Sample = strings.Join(hist, "; ")
	return out, nil
}

// guiCheck starts the GUI, waits for the result of its update check and ends it.
func (e *Env) guiCheck(o *guiOpts, answers string) (*runResult, error) {
	g, err := e.startGUI(o)
	if err != nil {
		return nil, err
	}
	defer g.close()
	line := ""
	if answers != "" { // the questions of a first run
		g.waitFor(func(*screen) bool { return strings.Contains(g.raw(), "1. Do you want") }, 20*time.Second)
		g.send(answers)
		g.waitFor(func(sc *screen) bool { return dialog(sc, "Password") }, 20*time.Second)
	}
	g.waitFor(func(sc *screen) bool { line = sc.text(1, 1, sc.w-1); return strings.Contains(line, ")") }, 20*time.Second)
	g.send("\x11")
	r := &runResult{TimedOut: !g.waitExit(10 * time.Second), Exit: g.exit, Out: g.raw()}
	if !r.crashed() {
		r.Out = strings.Replace(line, "new version is available: v", "New version of 1pass is available (available: ", 1)
		r.Out = strings.Replace(r.Out, " - run", ") - run", 1)
	}
	return r, nil
}

func stampText(b []byte, err error) string {
	if err != nil {
		return "missing"
	}
	return fmt.Sprintf("%q", b)
}

// ---- C14 ----

type c14Case struct {
	Comp []string `json:"comp"` // components, "=i" refers to the running version's component i, "=i+n" adds n
	Cmd  string   `json:"cmd"`
	More []string `json:"more,omitempty"` // further, not newest, entries of the list
	Long int      `json:"long,omitempty"` // KB of change logs
	Chnk bool     `json:"chnk,omitempty"` // the answer has no length
}

// list is the answer of the release server.
func (c *c14Case) list(tag string) Resp {
	text := func(part int) string {
		if c.Long == 0 {
			return ""
		}
		return strings.Repeat("- something was improved\n", 1+c.Long*part)
	}
	rels := []*relSpec{{Tag: tag, Changelog: "what is new\n" + text(c.Long%2*20), Assets: []string{"1pass.tar.gz", "checksum.md5"}}}
	for _, m := range c.More {
		rels = append(rels, &relSpec{Tag: m, Changelog: text(20)})
	}
	if c.Long > 0 {
		rels = append(rels, &relSpec{Tag: "0.0.1", Changelog: text(20)})
	}
	return Resp{Body: relBody(rels...), Chunked: c.Chnk}
}

func genComps(t *rapid.T, label string) (out []string) {
	n := pick(t, label+".n", 3, 3, 3, 3, 1, 2, 4, 5, 8)
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("%s.c%d", label, i)
		switch intn(t, l, 0, 9) {
		case 0, 1, 2, 3:
			out = append(out, fmt.Sprintf("=%d", i))
		case 4:
			out = append(out, fmt.Sprintf("=%d+%d", i, pick(t, l+".d", 1, -1, 9, 10, 99)))
		case 5:
			out = append(out, pick(t, l+".z", "0", "00", "9", "10", "11", "99", "100", "01", "001"))
		case 6:
			out = append(out, pick(t, l+".big", "2147483648", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551617", "100000000000000000000000000", "1000000000000000000000"))
		default:
			out = append(out, fmt.Sprint(intn(t, l+".n", 0, 40)))
		}
	}
	return out
}

func genC14(t *rapid.T) c14Case {
	c := c14Case{Cmd: pick(t, "cmd", "categories", "update", "configure")}
	c.Comp = genComps(t, "v")
	for i := intn(t, "more", 0, 2); i > 0; i-- {
		c.More = append(c.More, pick(t, fmt.Sprintf("more%d", i), "9.9.9", "0.1.0", "1.3.0", "99.0.0"))
	}
	if chance(t, "long", 8) {
		c.Long = pick(t, "kb", 5, 16, 64, 65, 120, 300, 301, 1100, 1101)
	}
	c.Chnk = chance(t, "chunked", 15)
	return c
}

func normDigits(s string) string {
	s = strings.TrimLeft(s, "0")
	if s == "" {
		return "0"
	}
	return s
}

// cmpVersion compares dotted numbers of any size; missing components count as zero.
func cmpVersion(a, b string) int {
	x, y := strings.Split(a, "."), strings.Split(b, ".")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "0", "0"
		if i < len(x) {
			p = normDigits(x[i])
		}
		if i < len(y) {
			q = normDigits(y[i])
		}
		if len(p) != len(q) {
			if len(p) < len(q) {
				return -1
			}
			return 1
		}
		if p != q {
			if p < q {
				return -1
			}
			return 1
		}
	}
	return 0
}

// versionComps resolves components that refer to the running version.
func versionComps(spec []string, ver string) []string {
	cur := strings.Split(ver, ".")
	var comp []string
	for _, x := range spec {
		if strings.HasPrefix(x, "=") {
			i, d, _ := strings.Cut(x[1:], "+")
			n, _ := strconv.Atoi(i)
			k := 0
			if n < len(cur) {
				k, _ = strconv.Atoi(cur[n])
			}
			dd, _ := strconv.Atoi(d)
			if k += dd; k < 0 {
				k = 0
			}
			x = strconv.Itoa(k)
		}
		comp = append(comp, x)
	}
	return comp
}

func runC14(e *Env, c *c14Case) (*Outcome, error) {
	ver, err := e.runningVersion()
	if err != nil {
		return nil, err
	}
	comp := versionComps(c.Comp, ver)
	cur := strings.Split(ver, ".")
	tag := strings.Join(comp, ".")
	want := cmpVersion(tag, ver) > 0
	if cmpVersion(tag, ver) == 0 && len(comp) != len(cur) {
		return &Outcome{Labels: []string{"same version with more or fewer components (not specified)"}}, nil
	}
	g, err := e.github(&Scenario{Releases: c.list(tag)})
	if err != nil {
		return nil, err
	}
	home, err := e.home("home", &appConfig{Vault: sp(""), Notify: bp(true), Timeout: ip(10), Period: ip(0)})
	if err != nil {
		return nil, err
	}
	in := "n\n"
	if c.Cmd == "configure" {
		in = "\n\n\n\n"
	}
	r, err := e.run(&runOpts{Args: []string{c.Cmd}, Home: home, DNS: g.dnsAddr, CA: g.caFile, UsePipe: true, Stdin: []byte(in)})
	if err != nil {
		return nil, err
	}
	if r.TimedOut || r.crashed() {
		return nil, violate("running version %s, release %s: %s fails: %s", ver, tag, c.Cmd, show(r.Out))
	}
	if g.connections() == 0 {
		return nil, violate("running version %s, release %s: %s did not ask for releases: %s", ver, tag, c.Cmd, show(r.Out))
	}
	an := announced(r.Out)
	if (an != "") != want || (want && an != tag) {
		return nil, violate("running version %s, release %s: %s announces %q, want announcement: %v; %s", ver, tag, c.Cmd, an, want, show(r.Out))
	}
	if c.Cmd == "update" {
		if strings.Contains(r.Out, "Do you want to update") != want {
			return nil, violate("running version %s, release %s: the update is offered wrongly (want %v): %s", ver, tag, want, show(r.Out))
		}
		if r.Exit == 0 {
			return nil, violate("running version %s, release %s: update (refused) ends with status 0: %s", ver, tag, show(r.Out))
		}
	} else if r.Exit != 0 {
		return nil, violate("running version %s, release %s: %s ends with status %d: %s", ver, tag, c.Cmd, r.Exit, show(r.Out))
	}
	o := &Outcome{Nontrivial: true, Sample: fmt.Sprintf("release %s, running %s, %s: announced %v", tag, ver, c.Cmd, want)}
	o.label("newer: %v", want)
	o.label("components: %d", len(comp))
	return o, nil
}

// ---- C15 ----

type c15Case struct {
	Cmd     string   `json:"cmd"`
	Fault   string   `json:"fault"`
	Muts    []c21Mut `json:"muts,omitempty"`
	A       int      `json:"a"`
	Timeout int      `json:"timeout"`
	Tag     int      `json:"tag"` // 1: newer release, 0: same
}

var c15Bodies = []string{"", " ", "null", "[]", "[null]", "{}", "[{}]", "[[]]", "[1]", "[\"x\"]", "1", "\"x\"", "true", "[", "]", "nul", "[{}", "[null,null]", "{\"message\":\"Not Found\"}",
	"[{\"tag_name\":null,\"body\":null,\"assets\":null}]", "[{\"tag_name\":\"99.0.0\"}]", "[{\"tag_name\":\"99.0.0\",\"body\":\"x\"}]", "[{\"tag_name\":\"99.0.0\",\"body\":\"x\",\"assets\":null}]",
	"[{\"tag_name\":\"99.0.0\",\"body\":\"x\",\"assets\":[null]}]", "[{\"tag_name\":\"99.0.0\",\"body\":\"x\",\"assets\":[{}]}]", "[{\"tag_name\":\"99.0.0\",\"body\":\"x\",\"assets\":[1]}]",
	"[{\"tag_name\":\"99.0.0\",\"body\":\"x\",\"assets\":[{\"name\":\"1pass.tar.gz\"}]}]", "[{\"tag_name\":\"99.0.0\",\"body\":\"x\",\"assets\":[{\"name\":1,\"browser_download_url\":2}]}]",
	"[{\"tag_name\":\"99.0.0\",\"body\":null,\"assets\":[]}]", "[{\"tag_name\":99,\"body\":\"x\",\"assets\":[]}]", "[{\"tag_name\":\"v99\",\"body\":\"x\",\"assets\":[]}]",
	"[{\"tag_name\":\"\",\"body\":\"\",\"assets\":[]}]", "[{\"tag_name\":\"99..0\",\"body\":\"x\",\"assets\":[]}]", "[{\"tag_name\":\"abc\",\"body\":\"x\",\"assets\":[]}]",
	"\xff\xfe", "<!DOCTYPE html><html></html>", "\x00", "[{\"tag_name\":\"-1.-2.-3\",\"body\":\"x\",\"assets\":[]}]", "[{\"tag_name\":\".\",\"body\":\"x\",\"assets\":{}}]"}

var c15Raw = []string{"", "\r\n", "garbage", "HTTP/1.1\r\n\r\n", "HTTP/1.1 200\r\n\r\n", "HTTP/9.9 200 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 5, 6\r\n\r\nabc",
	"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nZZ\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffffff\r\n", "HTTP/1.1 200 OK\r\n\r\n", "HTTP/1.1 204 No Content\r\n\r\n",
	"HTTP/1.1 200 OK\r\nBad Header\r\n\r\n[]", "HTTP/1.1 302 Found\r\n\r\n", "HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 2\r\n\r\n[]",
	"HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999\r\n\r\n[]", "HTTP/1.1 101 Switching Protocols\r\nUpgrade: x\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n[][][]"}

var c15Faults = []string{"body", "body", "body", "mutate", "mutate", "mutate", "raw", "cut", "chunkcut", "status", "redirect", "close", "reset", "refused", "garbage", "badcert", "nx", "servfail"}
var c15Stalls = []string{"stall", "stallhdr", "stallbody", "silent", "stallmid"}

func genC15(t *rapid.T) c15Case {
	c := c15Case{Cmd: pick(t, "cmd", "categories", "categories", "list", "details", "configure", "update", "update"), Fault: pick(t, "fault", c15Faults...), A: intn(t, "a", 0, 100000), Timeout: 10}
	c.Tag = intn(t, "tag", 0, 1)
	if c.Fault == "mutate" {
		n := intn(t, "nm", 1, 2)
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("m%d", i)
			m := c21Mut{Kind: pick(t, l+".k", "jset", "jset", "jset", "jdel", "jdel", "flip", "set", "cut", "cuthead", "insert", "delete", "append", "nest"), A: intn(t, l+".a", 0, 100000), B: intn(t, l+".b", 0, 255)}
			if m.Kind == "jset" {
				m.Text = pick(t, l+".v", "null", "0", "-1", "1.5", "true", "\"\"", "\"x\"", "[]", "{}", "[null]", "[1]", "{\"a\":1}", "\"99.9.9\"", "1e300", "[[]]", "[{}]", "\"https://\"", "\"x.tar.gz\"", "\"\\u0000\"")
			} else {
				m.Text = pick(t, l+".t", "", "x", "}", "]", ",", "\"", "\x00", "null", "[[[", "\xff")
			}
			c.Muts = append(c.Muts, m)
		}
	}
	return c
}

func genC15Stall(t *rapid.T) c15Case {
	return c15Case{Cmd: pick(t, "cmd", "categories", "list", "update", "configure"), Fault: pick(t, "fault", c15Stalls...), A: intn(t, "a", 0, 100000), Timeout: pick(t, "timeout", 1, 1, 2), Tag: 1}
}

func (c *c15Case) scenario(ver string) *Scenario {
	tag := ver
	if c.Tag == 1 {
		tag = bumpVersion(ver, 1)
	}
	good := relBody(&relSpec{Tag: tag, Changelog: "changes", Assets: []string{"1pass.tar.gz", "checksum.md5"}}, &relSpec{Tag: "0.9.0"})
	sc := &Scenario{Releases: Resp{Body: good}}
	switch c.Fault {
	case "body":
		sc.Releases.Body = []byte(c15Bodies[c.A%len(c15Bodies)])
	case "raw":
		sc.Releases.RawReply = []byte(c15Raw[c.A%len(c15Raw)])
	case "cut":
		sc.Releases.CutAt = 1 + c.A%len(good)
	case "chunkcut":
		sc.Releases.Chunked = true
		sc.Releases.CutAt = 1 + c.A%len(good)
	case "status":
		sc.Releases.Status = []int{400, 401, 403, 404, 418, 429, 500, 502, 503, 504, 599, 304, 206}[c.A%13]
		sc.Releases.Body = [][]byte{nil, []byte("error"), []byte(`{"message":"x"}`), []byte("[]")}[c.A/13%4]
	case "redirect":
		loc := []string{"/repos/mashmb/1pass/releases", "https://api.github.com/repos/mashmb/1pass/releases", "https://nonexistent.invalid/", "http://127.0.0.1:1/", "", "::bad::", "ftp://x/", "/elsewhere"}[c.A%8]
		sc.Releases = Resp{Status: []int{301, 302, 303, 307, 308}[c.A/8%5], Headers: map[string]string{"Location": loc}}
	case "close", "reset", "refused", "garbage", "badcert", "stall":
		sc.Conn = c.Fault
	case "nx", "servfail", "silent":
		sc.DNS = c.Fault
	case "stallhdr":
		sc.Releases.StallHdr = true
	case "stallbody":
		sc.Releases.StallAt = 1
	case "stallmid":
		sc.Releases.StallAt = 2 + c.A%(len(good)-1)
	case "mutate":
		b := good
		for i := range c.Muts {
			b = mutateText(b, &c.Muts[i], "", "")
		}
		sc.Releases.Body = b
	}
	return sc
}

func runC15(e *Env, c *c15Case) (*Outcome, error) {
	ver, err := e.runningVersion()
	if err != nil {
		return nil, err
	}
	g, err := e.github(c.scenario(ver))
	if err != nil {
		return nil, err
	}
	v := VaultSpec{Password: "secret", Iter: 1, Items: []ItemSpec{{UID: "0123456789ABCDEF0123456789ABCDEF", Cat: "001", Title: sp("Alpha"), Created: 1600000000, Updated: 1600000001}}}
	vdir := filepath.Join(e.CaseDir(), "v")
	if err := Seal(&v).Write(vdir); err != nil {
		return nil, err
	}
	home, err := e.home("home", &appConfig{Vault: &vdir, Notify: bp(true), Timeout: ip(c.Timeout), Period: ip(0)})
	if err != nil {
		return nil, err
	}
	exe, sum, err := e.installCopy(home)
	if err != nil {
		return nil, err
	}
	o := &runOpts{Args: []string{c.Cmd}, Home: home, Exe: exe, DNS: g.dnsAddr, CA: g.caFile}
	bound := time.Duration(10*c.Timeout+10) * time.Second
	o.Limit = bound
	if o.Limit < 60*time.Second && c.Timeout > 2 {
		o.Limit = 60 * time.Second
	}
	switch c.Cmd {
	case "details":
		o.Args = append(o.Args, v.Items[0].UID)
		o.Password = &v.Password
	case "list":
		o.Password = &v.Password
	case "configure":
		o.UsePipe, o.Stdin = true, []byte("\n\n\n7\n")
	default:
		o.UsePipe, o.Stdin = true, []byte("n\n")
	}
	r, err := e.run(o)
	if err != nil {
		return nil, err
	}
	what := fmt.Sprintf("server fault %s/%d, timeout %d s, %s", c.Fault, c.A, c.Timeout, c.Cmd)
	if len(c.Muts) > 0 || c.Fault == "body" {
		what += " (answer " + show(string(g.sc.Releases.Body)) + ")"
	} else if c.Fault == "raw" {
		what += " (answer " + show(string(g.sc.Releases.RawReply)) + ")"
	}
	if r.TimedOut {
		return nil, violate("%s: not finished after %v: %s", what, o.Limit, show(r.Out))
	}
	if r.crashed() {
		return nil, violate("%s: crash: %s", what, show(r.Out))
	}
	switch c.Cmd {
	case "update":
		left := strings.TrimSpace(strings.Replace(r.Out, "Checking for 1pass application updates...", "", 1))
		if left == "" {
			return nil, violate("%s: ends without a message (status %d): %s", what, r.Exit, show(r.Out))
		}
		if strings.Contains(r.Out, "updated to version") {
			return nil, violate("%s: claims success: %s", what, show(r.Out))
		}
	default:
		if r.Exit != 0 {
			return nil, violate("%s: exit status %d: %s", what, r.Exit, show(r.Out))
		}
		var cerr error
		switch c.Cmd {
		case "categories":
			cerr = checkCategories(r.Out)
		case "list":
			cerr = checkListRows(r.afterPrompt(), v.query("", "", false))
		case "details":
			if !strings.Contains(r.afterPrompt(), "Alpha") {
				cerr = fmt.Errorf("the item is not shown")
			}
		case "configure":
			if got := toSettings(openConfig(filepath.Join(home, ".config", "1pass")).GetConfig()); got != (settings{vdir, true, c.Timeout, 7}) {
				cerr = fmt.Errorf("the configuration is %v", got)
			}
		}
		if cerr != nil {
			return nil, violate("%s: the command did not do its work: %v; %s", what, cerr, show(r.Out))
		}
	}
	if now, err := fileSum(exe); err != nil || now != sum {
		return nil, violate("%s: the program file changed (%v)", what, err)
	}
	out := &Outcome{Nontrivial: g.connections() > 0 || g.sc.DNS != "" || c.Fault == "refused", Sample: what}
	out.label("%s", c.Fault)
	out.label("%s", c.Cmd)
	return out, nil
}

func init() {
	register(&Property{ID: "C13", Technique: "property-based testing: stateful histories of commands against a fake release server and a model of the schedule",
		Rule:   "Histories of one to five commands and GUI sessions (first runs included) with generated settings, time stamps (ages around the period, future, garbage, missing) and server outcomes; non-trivial when the server was contacted or there were several commands.",
		Assume: []string{"time stamps lie at least two minutes away from a change of the whole-day count", "the server is reachable over HTTPS on the loopback network through an overlay that names the DNS server"},
		Subs:   []*Sub{mk("cli", 8000, 60000, genC13, runC13)}})
	register(&Property{ID: "C14", Technique: "property-based testing: generated version tags against an arbitrary-precision comparison",
		Rule:   "Dotted numeric tags around the running version (other digits, more or fewer components, huge numbers) published by a fake release server and met by a notifying command, by real updates of a private copy of the program (the release may change between question and answer) or by a GUI whose version line is read without a key press; non-trivial when the expected result is specified.",
		Assume: []string{"tags consist of dot-separated decimal numbers; a tag that differs only by the number of trailing zero components is not judged"},
		Subs: []*Sub{
			mk("cli", 8000, 60000, genC14, runC14),
			mk("install", 200, 2500, genC14Install, runC14Install).serial(),
			mk("gui", 1000, 8000, genC14, runC14GUI),
		}})
	register(&Property{ID: "C15", Technique: "fault injection with generated server misbehaviour (DNS, TCP, TLS, HTTP, JSON layers)",
		Rule:   "One generated misbehaviour of the release server per case (before, during or after the release list, or during a download), while a command or a GUI session runs; non-trivial when the application met the fault (a connection or name lookup took place).",
		Assume: []string{"bound for a silent server: ten times the configured timeout plus ten seconds", "answers that arrive slowly but steadily are not judged"},
		Subs: []*Sub{
			mk("faults", 3000, 40000, genC15, runC15),
			mk("stalls", 48, 800, genC15Stall, runC15),
			mk("gui", 400, 3000, genC15GUI, runC15GUI),
			mk("download", 200, 3000, genC15Down, runC15Down).serial(),
		}})
}
