package main

// The release server and the GUI (parts of C14, C15 and C18), and installing for C14.

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"time"

	"pgregory.net/rapid"
)

func netGUIVault() VaultSpec {
	return VaultSpec{Password: "secret", Iter: 1, Items: []ItemSpec{
		{UID: "0123456789ABCDEF0123456789ABCDEF", Cat: "001", Title: sp("Alpha"), Created: 1600000000, Updated: 1600000001},
		{UID: "1123456789ABCDEF0123456789ABCDEF", Cat: "003", Title: sp("Beta"), Created: 1600000000, Updated: 1600000001, Notes: sp("note")},
	}}
}

// verLine is what the first line of the GUI has to announce for a release tag.
func verLine(tag string, newer bool) string {
	if newer {
		return "new version is available: v" + tag
	}
	return "up to date"
}

func runC14GUI(e *Env, c *c14Case) (*Outcome, error) {
	ver, err := e.runningVersion()
	if err != nil {
		return nil, err
	}
	comp := versionComps(c.Comp, ver)
	tag := strings.Join(comp, ".")
	want := cmpVersion(tag, ver) > 0
	if cmpVersion(tag, ver) == 0 && len(comp) != len(strings.Split(ver, ".")) {
		return &Outcome{Labels: []string{"same version with more or fewer components (not specified)"}}, nil
	}
	rels := []*relSpec{{Tag: tag, Changelog: "what is new", Assets: []string{"1pass.tar.gz", "checksum.md5"}}}
	for _, m := range c.More {
		rels = append(rels, &relSpec{Tag: m})
	}
	what := fmt.Sprintf("running version %s, release %s, GUI", ver, tag)
	play := func(limit time.Duration) error {
		g, err := e.github(&Scenario{Releases: Resp{Body: relBody(rels...)}})
		if err != nil {
			return err
		}
		home, err := e.home("home", &appConfig{Vault: sp(""), Notify: bp(true), Timeout: ip(10), Period: ip(0)})
		if err != nil {
			return err
		}
		gc := &guiCase{Vault: netGUIVault(), Cols: 200, Rows: 24}
		line := ""
		_, err = e.playGUIWith(gc, true, true, false, limit, func(o *guiOpts) { o.Home, o.DNS, o.CA = home, g.dnsAddr, g.caFile }, func(s *guiSess) error {
			read := func(sc *screen) string { return strings.TrimSpace(sc.text(1, 1, sc.w-1)) }
			ok := func(sc *screen) bool {
				line = read(sc)
				an := strings.Contains(line, "available")
				if an != want {
					return false
				}
				return strings.Contains(clip(line, 0, 150), clip(verLine(tag, want), 0, 100))
			}
			if !s.g.waitFor(ok, limit) {
				return violate("%s: the first line says %q, expected %q (without any key pressed)", what, line, verLine(tag, want))
			}
			// it is still there after working with the vault
			for _, op := range []guiOp{{Op: "unlock"}, {Op: "open"}, {Op: "down"}, {Op: "tab"}, {Op: "lock"}} {
				if err := s.step(&op); err != nil {
					return err
				}
			}
			if l := read(s.g.snap()); l != line {
				return violate("%s: the first line changed from %q to %q", what, line, l)
			}
			return nil
		})
		return err
	}
	err = play(6 * time.Second)
	if _, ok := err.(*Violation); ok {
		err = play(15 * time.Second)
	}
	if err != nil {
		return nil, err
	}
	o := &Outcome{Nontrivial: true, Sample: fmt.Sprintf("release %s, running %s, GUI: announced %v", tag, ver, want)}
	o.label("GUI, newer: %v", want)
	return o, nil
}

// ---- C14: what gets installed ----

type c14Install struct {
	Comp  []string `json:"comp"`            // the release when the update is offered
	Comp2 []string `json:"comp2,omitempty"` // the release when it is carried out; empty: the same
	Upd   updCase  `json:"upd"`
}

func genC14Install(t *rapid.T) c14Install {
	c := c14Install{Upd: genUpd(t), Comp: genComps(t, "first")}
	switch intn(t, "kind", 0, 3) {
	case 0, 1:
		c.Comp = []string{"=0+1", "=1", "=2"}
		c.Comp2 = genComps(t, "second")
	case 2:
		c.Comp2 = genComps(t, "second")
	}
	return c
}

func runC14Install(e *Env, c *c14Install) (*Outcome, error) {
	ver, err := e.runningVersion()
	if err != nil {
		return nil, err
	}
	u := c.Upd
	u.Tag = strings.Join(versionComps(c.Comp, ver), ".")
	same := func(tag string) bool { // not specified
		return cmpVersion(tag, ver) == 0 && tag != ver
	}
	last := u.Tag
	if len(c.Comp2) > 0 {
		u.Tag2, u.Second = strings.Join(versionComps(c.Comp2, ver), "."), "tag"
		last = u.Tag2
	}
	if same(u.Tag) || same(last) {
		return &Outcome{Labels: []string{"same version written differently (not specified)"}}, nil
	}
	w, err := e.prepareUpdate(&u)
	if err != nil {
		return nil, err
	}
	defer w.close()
	what := fmt.Sprintf("running version %s, release %s, later %q: %s", ver, u.Tag, u.Tag2, u.String())
	res, err := e.update(w, &u, what, false)
	if err != nil {
		return nil, err
	}
	newer, lastNewer := cmpVersion(u.Tag, ver) > 0, cmpVersion(last, ver) > 0
	if res.state == "new" && (!newer || !lastNewer) {
		return nil, violate("%s: a release that is not newer was installed: %s", what, show(res.r.Out))
	}
	if (!newer || !lastNewer) && res.r.Exit == 0 {
		return nil, violate("%s: nothing was to be installed but the update ends with status 0: %s", what, show(res.r.Out))
	}
	if newer && last == u.Tag && (res.state != "new" || !bytes.Equal(res.now, u.newProg())) {
		return nil, violate("%s: the newer release was not installed: exit %d %s", what, res.r.Exit, show(res.r.Out))
	}
	o := &Outcome{Nontrivial: true, Sample: what + " -> " + res.state}
	o.label("install: offered %v, newer when carried out %v, %s", newer, lastNewer, res.state)
	return o, nil
}

// ---- C15: the GUI and a misbehaving server ----

func genC15GUI(t *rapid.T) c15Case {
	if chance(t, "stall", 30) {
		c := genC15Stall(t)
		c.Cmd = "gui"
		return c
	}
	c := genC15(t)
	c.Cmd = "gui"
	return c
}

func runC15GUI(e *Env, c *c15Case) (*Outcome, error) {
	ver, err := e.runningVersion()
	if err != nil {
		return nil, err
	}
	sc := c.scenario(ver)
	what := fmt.Sprintf("server fault %s/%d, timeout %d s, GUI", c.Fault, c.A, c.Timeout)
	if len(c.Muts) > 0 || c.Fault == "body" {
		what += " (answer " + show(string(sc.Releases.Body)) + ")"
	}
	met := false
	play := func(limit time.Duration) error {
		g, err := e.github(sc)
		if err != nil {
			return err
		}
		home, err := e.home("home", &appConfig{Vault: sp(""), Notify: bp(true), Timeout: ip(c.Timeout), Period: ip(0)})
		if err != nil {
			return err
		}
		exe, sum, err := e.installCopy(home)
		if err != nil {
			return err
		}
		gc := &guiCase{Vault: netGUIVault(), Cols: 120, Rows: 24, Ops: []guiOp{{Op: "unlock"}, {Op: "down"}, {Op: "open"}, {Op: "tab"}, {Op: "tab"}, {Op: "lock"}, {Op: "unlock"}, {Op: "open"}, {Op: "down"}}}
		_, err = e.playGUIWith(gc, true, true, false, limit, func(o *guiOpts) { o.Home, o.DNS, o.CA, o.Exe = home, g.dnsAddr, g.caFile, exe }, func(s *guiSess) error {
			// once the check has ended one way or another, the session goes on
			stall := strings.HasPrefix(c.Fault, "stall") || c.Fault == "silent"
			if stall && c.A%4 == 0 || !stall {
				end := 2 * time.Second
				if stall {
					end = time.Duration(10*c.Timeout+10) * time.Second
				}
				s.g.waitFor(func(sc *screen) bool { return strings.Contains(sc.text(1, 1, sc.w-1), "(") }, end)
				for _, op := range []guiOp{{Op: "up"}, {Op: "lock"}, {Op: "unlock"}, {Op: "open"}} {
					if err := s.step(&op); err != nil {
						return err
					}
				}
			}
			return nil
		})
		met = g.connections() > 0 || g.sc.DNS != "" || c.Fault == "refused"
		if v, ok := err.(*Violation); ok {
			return violate("%s: %s", what, v.Msg)
		}
		if err != nil {
			return err
		}
		if now, err := fileSum(exe); err != nil || now != sum {
			return violate("%s: the program file changed (%v)", what, err)
		}
		return nil
	}
	err = play(5 * time.Second)
	if _, ok := err.(*Violation); ok {
		err = play(10 * time.Second)
	}
	if err != nil {
		return nil, err
	}
	o := &Outcome{Nontrivial: met, Sample: what}
	o.label("GUI: %s", c.Fault)
	return o, nil
}

// ---- C18: the GUI never updates ----

type c18GUI struct {
	Upd  updCase `json:"upd"`
	Keys string  `json:"keys"`
	Ops  []guiOp `json:"ops"`
}

func genC18GUI(t *rapid.T) c18GUI {
	c := c18GUI{Upd: genUpd(t)}
	c.Keys = pick(t, "keys", "y", "Y", "yy", "u", "U", "y\r", "yes", "", "1")
	for i, n := 0, intn(t, "n", 1, 6); i < n; i++ {
		c.Ops = append(c.Ops, guiOp{Op: pick(t, fmt.Sprintf("op%d", i), "unlock", "open", "down", "tab", "back", "lock", "junk"), Key: intn(t, fmt.Sprintf("k%d", i), 0, 5)})
	}
	return c
}

func runC18GUI(e *Env, c *c18GUI) (*Outcome, error) {
	w, err := e.prepareUpdate(&c.Upd)
	if err != nil {
		return nil, err
	}
	defer w.close()
	gc := &guiCase{Vault: netGUIVault(), Cols: 120, Rows: 24, Ops: append([]guiOp{{Op: "unlock"}}, c.Ops...)}
	what := fmt.Sprintf("GUI session with a newer release, keys %q", c.Keys)
	seen := false
	_, err = e.playGUIWith(gc, false, false, false, 8*time.Second, func(o *guiOpts) { o.Home, o.DNS, o.CA, o.Exe = w.home, w.g.dnsAddr, w.g.caFile, w.exe }, func(s *guiSess) error {
		s.g.waitFor(func(sc *screen) bool { seen = strings.Contains(sc.text(1, 1, sc.w-1), w.tag); return seen }, 3*time.Second)
		s.g.send(c.Keys)
		s.g.settle(30 * time.Millisecond)
		return nil
	})
	if _, ok := err.(*Violation); err != nil && !ok {
		return nil, err
	}
	for _, q := range w.g.requests() {
		if strings.Contains(q, "/dl/") {
			return nil, violate("%s: something was downloaded: %s", what, q)
		}
	}
	now, err := os.ReadFile(w.exe)
	if err != nil || !bytes.Equal(now, w.old) {
		return nil, violate("%s: the program changed (%v)", what, err)
	}
	if _, err := os.Lstat(cacheDir); err == nil {
		return nil, violate("%s: an update was started (%v)", what, listTree(cacheDir))
	}
	o := &Outcome{Nontrivial: len(w.g.requests()) > 0, Sample: what}
	o.label("GUI, announced: %v", seen)
	return o, nil
}
