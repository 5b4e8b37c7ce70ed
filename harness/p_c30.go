package main

// C30: the files of the vault are damaged, removed, replaced or repaired while a GUI session is running.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

var csiPat = regexp.MustCompile(`\x1b\[[0-9;?]*[A-Za-z]|\x1b[()][A-Z0-9]|\x1b[=>78M]`)

type c30Phase struct {
	Change string   `json:"change"` // "", damage, away, back (whole again), rekey
	When   string   `json:"when"`   // prompt, open (with the vault open, then it is locked), start (before the GUI starts)
	Muts   []c21Mut `json:"muts,omitempty"`
	Pw     string   `json:"pw,omitempty"` // typed instead of the right password
	How    int      `json:"how,omitempty"`
	Deep   bool     `json:"deep"` // looks at the items after unlocking (or after the change, with the vault open)
}

type c30Case struct {
	Vault  VaultSpec  `json:"vault"`
	Cols   int        `json:"cols"`
	Rows   int        `json:"rows"`
	Phases []c30Phase `json:"phases"`
	Early  bool       `json:"early,omitempty"` // left at the end without waiting
}

func genFileMuts(t *rapid.T, label string) []c21Mut {
	var out []c21Mut
	for i, n := 0, intn(t, label+".n", 1, 2); i < n; i++ {
		l := fmt.Sprintf("%s.%d", label, i)
		m := c21Mut{Where: pick(t, l+".where", "profile", "band", "band"), A: intn(t, l+".a", 0, 1<<20), B: intn(t, l+".b", 0, 255)}
		m.Kind = pick(t, l+".kind", "set", "flip", "cut", "cut", "insert", "delete", "whole", "whole", "jset", "jdel", "append", "chmod", "isdir", "gone", "gone")
		switch m.Kind {
		case "whole":
			if m.Where == "profile" {
				m.Text = rapid.SampledFrom(c21ProfileTexts).Draw(t, l+".text")
			} else {
				m.Text = rapid.SampledFrom(c21BandTexts).Draw(t, l+".text")
			}
		case "jset":
			m.Text = rapid.SampledFrom(c21Values).Draw(t, l+".val")
		case "insert", "append":
			m.Text = pick(t, l+".ins", "{", "}", "\"", ",", "\x00", "null", ";", ")", "0", "\xff\xfe")
		}
		out = append(out, m)
	}
	return out
}

func genC30(t *rapid.T) c30Case {
	c := c30Case{Vault: genGUIVault(t, 5), Early: chance(t, "early", 20)}
	c.Cols, c.Rows = genGUISize(t)
	if len(c.Vault.Items) == 0 {
		c.Vault.Items = append(c.Vault.Items, guiItem(t, "only", map[string]bool{}, 77))
	}
	pw := c.Vault.Password
	for i, n := 0, intn(t, "phases", 1, 5); i < n; i++ {
		l := fmt.Sprintf("p%d", i)
		p := c30Phase{Change: pick(t, l, "damage", "damage", "damage", "away", "back", "back", "rekey", ""), When: pick(t, l+".when", "prompt", "prompt", "open"), Deep: chance(t, l+".deep", 50)}
		if i == 0 {
			p.When = pick(t, l+".first", "start", "prompt", "prompt")
		}
		if p.Change == "damage" {
			p.Muts = genFileMuts(t, l)
		}
		if p.Change == "rekey" {
			p.Muts = nil
			p.How = intn(t, l+".how", 0, 4)
			if !chance(t, l+".same", 30) {
				pw = "nn" + detString(uint64(intn(t, l+".pwseed", 0, 1<<20)), alPass, 8)
			}
			p.Pw = pw
		} else if chance(t, l+".wrong", 15) {
			p.Pw = "wrong" + stringOf(t, l+".wpw", alLower, 1, 8)
		}
		c.Phases = append(c.Phases, p)
	}
	return c
}

// damage applies file mutations; false if it would make the key derivation too long.
func damageFiles(dir string, muts []c21Mut) bool {
	def := filepath.Join(dir, "default")
	for i := range muts {
		m := &muts[i]
		path, pre, suf := filepath.Join(def, "profile.js"), "var profile=", ";"
		if m.Where == "band" {
			names, _ := filepath.Glob(filepath.Join(def, "band_*.js"))
			if len(names) == 0 {
				continue
			}
			sort.Strings(names)
			path, pre, suf = names[m.B%len(names)], "ld(", ");"
		}
		b, err := os.ReadFile(path)
		if err != nil {
			continue
		}
		switch m.Kind {
		case "gone":
			os.Remove(path)
		case "isdir":
			os.Remove(path)
			os.Mkdir(path, 0o755)
		case "chmod":
			os.Chmod(path, 0)
		default:
			nb := mutateText(b, m, pre, suf)
			if m.Where == "profile" && hugeIter(nb) {
				return false
			}
			os.WriteFile(path, nb, 0o644)
		}
	}
	return true
}

func runC30(e *Env, c *c30Case) (*Outcome, error) {
	o, err := e.playC30(c, 5*time.Second)
	if _, ok := err.(*Violation); ok {
		o, err = e.playC30(c, 12*time.Second)
	}
	return o, err
}

func (e *Env) playC30(c *c30Case, limit time.Duration) (*Outcome, error) {
	o := &Outcome{}
	dir := filepath.Join(e.CaseDir(), fmt.Sprintf("v%d", limit))
	cur := c.Vault
	if err := Seal(&cur).Write(dir); err != nil {
		return nil, err
	}
	whole, there := true, true
	change := func(p *c30Phase) error {
		if p.Change == "" {
			return nil
		}
		if !there {
			if err := os.Rename(dir+".away", dir); err != nil {
				return err
			}
			there = true
		}
		switch p.Change {
		case "back", "rekey":
			if p.Change == "rekey" {
				cur = rekeyed(cur, p.Pw, p.How)
			}
			whole = true
			return Seal(&cur).rewrite(dir)
		case "away":
			there = false
			return os.Rename(dir, dir+".away")
		case "damage":
			whole = false
			if !damageFiles(dir, p.Muts) {
				o.label("skipped: huge iteration count")
				whole = true
				return Seal(&cur).rewrite(dir)
			}
			for _, m := range p.Muts {
				o.label("%s/%s", m.Where, m.Kind)
			}
		}
		return nil
	}
	if c.Phases[0].When == "start" {
		if err := change(&c.Phases[0]); err != nil {
			return nil, err
		}
	}
	home, err := e.quietHome("")
	if err != nil {
		return nil, err
	}
	g, err := e.startGUI(&guiOpts{Args: []string{"-v", dir}, Home: home, Cols: c.Cols, Rows: c.Rows, Keep: true})
	if err != nil {
		return nil, err
	}
	defer g.close()
	s := &guiSess{g: g, cols: c.Cols, rows: c.Rows, dir: dir, cur: &cur, first: &c.Vault, limit: limit, mode: gPrompt, faithful: true, locking: true, labels: map[string]bool{}}
	// ended examines a session that is over
	ended := func(when string) error {
		if !g.waitExit(limit) {
			return violate("%s: the GUI neither works nor ends\n%s", when, g.describe())
		}
		if whole && there {
			return violate("%s: the vault is intact and the GUI ends: %s", when, g.describe())
		}
		if g.crashed() {
			return violate("%s: the GUI crashes: %s", when, g.describe())
		}
		if g.exit == 0 {
			return violate("%s: the GUI ends with status 0: %s", when, g.describe())
		}
		if err := g.restored(when + ": the ended GUI"); err != nil {
			return err
		}
		raw := g.raw()
		for _, sw := range []string{"\x1b[?1049l", "\x1b[?47l", "\x1b[?1l", "\x1b>"} {
			if i := strings.LastIndex(raw, sw); i >= 0 {
				raw = raw[i+len(sw):]
			}
		}
		if strings.TrimSpace(csiPat.ReplaceAllString(raw, "")) == "" {
			return violate("%s: the GUI ends with status %d without a message that stays on the terminal: %s", when, g.exit, g.describe())
		}
		o.label("ended with a message")
		o.Nontrivial = true
		return nil
	}
	// await waits until the screen is one of these or the program is over.
	await := func(modes ...string) string {
		got := ""
		for end := time.Now().Add(limit); time.Now().Before(end); {
			g.waitFor(func(sc *screen) bool { got = screenIsOf(sc); return slices.Contains(modes, got) || g.dead() }, time.Until(end))
			if g.dead() {
				return "dead"
			}
			g.settle(20 * time.Millisecond)
			if slices.Contains(modes, got) && screenIsOf(g.snap()) == got && !g.dead() {
				return got
			}
		}
		if g.dead() {
			return "dead"
		}
		return ""
	}
	if w := await(gPrompt); w == "dead" {
		return o, ended("at the start")
	} else if w == "" {
		return nil, violate("the GUI starts without asking for the password\n%s", g.describe())
	}
	var did []string
	exact := false // the open vault was intact when it was opened
	for i := range c.Phases {
		p := &c.Phases[i]
		when := fmt.Sprintf("phase %d (%s)", i, p.Change)
		did = append(did, p.Change)
		if p.When == "prompt" || p.When == "open" && s.mode != gMain && s.mode != gItems {
			if err := change(p); err != nil {
				return nil, err
			}
		} else if p.When == "open" {
			if err := change(p); err != nil {
				return nil, err
			}
			o.label("changed while the vault is open")
			if p.Deep {
				// the open vault is not affected
				for _, k := range []string{"open", "down", "tab", "tab", "back"} {
					if !exact {
						continue
					}
					if err := s.step(&guiOp{Op: k}); err != nil {
						return nil, violate("%s, with the vault open: %s", when, err)
					}
				}
				s.mode = gMain
			}
		}
		if s.mode == gMain {
			g.settle(20 * time.Millisecond)
			s.key("lock", 0)
			s.mode = gPrompt
			switch w := await(gPrompt); w {
			case "dead":
				return nil, violate("%s: locking ends the GUI: %s", when, g.describe())
			case "":
				return nil, violate("%s: locking does not ask for the password\n%s", when, g.describe())
			}
			if c := s.vaultContent(g.snap()); c != "" {
				return nil, violate("%s: the vault is locked and the screen shows %s\n%s", when, c, g.snap().all())
			}
		}
		pw := cur.Password
		if p.Pw != "" {
			pw = p.Pw
		}
		g.send(pw)
		s.waitStars(len([]rune(pw)))
		s.key("enter", 0)
		w := await(gError, gMain)
		switch {
		case w == "dead":
			return o, ended(when)
		case w == "":
			return nil, violate("%s: nothing happens after the password\n%s", when, g.describe())
		}
		if whole && there {
			if (w == gMain) != (pw == cur.Password) {
				return nil, violate("%s: the vault is intact, the password is %v and the GUI shows\n%s", when, map[bool]string{true: "right", false: "wrong"}[pw == cur.Password], g.snap().all())
			}
			if i > 0 {
				o.label("works with the intact vault")
				o.Nontrivial = true
			}
		} else if pw != cur.Password && w == gMain {
			return nil, violate("%s: password %q is accepted instead of %q\n%s", when, pw, cur.Password, g.snap().all())
		}
		if w == gMain && !there {
			return nil, violate("%s: a vault that is not there is opened\n%s", when, g.snap().all())
		}
		if w == gError {
			sc := g.snap()
			if strings.TrimSpace(strings.ReplaceAll(sc.row(c.Rows/2), "│", "")) == "" {
				return nil, violate("%s: the error dialog is empty\n%s", when, sc.all())
			}
			if c := s.vaultContent(sc); c != "" {
				return nil, violate("%s: the vault is locked and the screen shows %s\n%s", when, c, sc.all())
			}
			told := strings.Contains(sc.all(), "invalid password")
			if whole && there && !told || !there && told {
				return nil, violate("%s: the vault is %v and the dialog tells another reason\n%s", when, map[bool]string{true: "intact (the password was wrong)", false: "missing"}[there], sc.all())
			}
			if !whole || !there {
				o.label("refused in a dialog")
				o.Nontrivial = true
			}
			s.key("enter", 0)
			if w := await(gPrompt); w != gPrompt {
				return nil, violate("%s: the password is not asked for again (%s)\n%s", when, w, g.describe())
			}
			s.mode = gPrompt
			continue
		}
		// open
		if exact = whole; whole {
			s.enterMain()
			if err := s.expect(); err != nil {
				return nil, violate("%s: %s", when, err)
			}
		} else {
			o.label("opened although damaged")
		}
		s.mode = gMain
		if p.Deep {
			for _, k := range []string{"open", "down", "tab", "tab", "back"} {
				if whole {
					if err := s.step(&guiOp{Op: k}); err != nil {
						return nil, violate("%s: %s", when, err)
					}
					continue
				}
				if k == "tab" && !strings.Contains(g.snap().all(), "Trashed: ") {
					continue // nothing is listed
				}
				s.key(k, 0)
				g.settle(30 * time.Millisecond)
				if g.dead() {
					return nil, violate("%s: looking at the items (%s) ends the GUI: %s", when, k, g.describe())
				}
			}
		}
		s.mode = gMain
	}
	if !c.Early {
		g.settle(30 * time.Millisecond)
	}
	g.send("\x11")
	if !g.waitExit(limit) {
		return nil, violate("Ctrl+Q does not end the GUI after %v\n%s", did, g.describe())
	}
	if g.exit != 0 || g.crashed() {
		return nil, violate("Ctrl+Q ends the GUI with an error after %v: %s", did, g.describe())
	}
	if err := g.restored("leaving the GUI"); err != nil {
		return nil, err
	}
	o.Sample = fmt.Sprintf("%dx%d, %d items: %s", c.Cols, c.Rows, len(c.Vault.Items), strings.Join(did, ", "))
	return o, nil
}

func screenIsOf(sc *screen) string {
	switch {
	case dialog(sc, "Error"):
		return gError
	case dialog(sc, "Password"):
		return gPrompt
	}
	return gMain
}

func init() {
	register(&Property{
		ID:        "C30",
		Technique: "stateful property-based testing with file faults: generated damage, removal, replacement and repair of the vault's files during GUI sessions under a terminal emulator",
		Rule: "A case is a GUI session of one to five rounds; in each the vault's files are damaged (bytes, JSON structure, contents, permissions, directories, missing files), taken away, brought back or replaced by a vault with other password and keys, before the start, at the password prompt or while the vault is open, then the vault is locked and unlocked with a right, old or wrong password. " +
			"Non-trivial: a damaged or missing vault was tried, or the intact vault worked after a change.",
		Assume: []string{"the terminal has at least 62 columns and 14 rows", "iteration counts over 200000 are not generated"},
		Subs:   []*Sub{mk("session", 2500, 25000, genC30, runC30)},
	})
}
