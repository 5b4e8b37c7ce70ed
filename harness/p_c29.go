package main

// C29: several commands at the same time.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

type c29Proc struct {
	Cmds []string `json:"cmds"`           // list, details, overview, categories, configure: run one after the other
	V    []int    `json:"v"`              // per command: vault given with -v (0: none, the default vault)
	Set  int      `json:"set,omitempty"`  // what configure answers
	Skew int      `json:"skew,omitempty"` // delay at the start, in tenths of a millisecond
}

type c29Case struct {
	Procs  []c29Proc `json:"procs"`
	Notify bool      `json:"notify,omitempty"` // update notifications with a release server that has nothing newer
}

func genC29(t *rapid.T) c29Case {
	c := c29Case{Notify: chance(t, "notify", 40)}
	writers := intn(t, "writers", 0, 3)
	for i, n := 0, intn(t, "n", 2, 6); i < n; i++ {
		l := fmt.Sprintf("p%d", i)
		p := c29Proc{Skew: intn(t, l+".skew", 0, 60), Set: i}
		for k, m := 0, intn(t, l+".m", 1, 4); k < m; k++ {
			cmd := pick(t, fmt.Sprintf("%s.c%d", l, k), "list", "details", "overview", "categories", "list", "details")
			if i < writers && (k == 0 || chance(t, fmt.Sprintf("%s.w%d", l, k), 60)) {
				cmd = "configure"
			}
			p.Cmds = append(p.Cmds, cmd)
			p.V = append(p.V, pick(t, fmt.Sprintf("%s.v%d", l, k), 0, 0, 1, 2, 3))
		}
		c.Procs = append(c.Procs, p)
	}
	return c
}

func runC29(e *Env, c *c29Case) (*Outcome, error) {
	uid := "0123456789ABCDEF0123456789ABCDEF"
	var specs []*VaultSpec
	var dirs []string
	for i, n := range []string{"one", "two", "three"} {
		v := &VaultSpec{Password: "secret", Iter: 50, Seed: uint64(i), Items: []ItemSpec{{UID: uid, Cat: "001", Title: sp("ttl-" + n), Notes: sp("nte-" + n), Created: 1600000000, Updated: 1600000001}}}
		for k := 0; k < 3+i; k++ {
			v.Items = append(v.Items, ItemSpec{UID: fmt.Sprintf("%032X", 100*i+k), Cat: "003", Title: sp(fmt.Sprintf("more-%s-%d", n, k)), Created: 1600000000, Updated: 1600000001})
		}
		d := filepath.Join(e.CaseDir(), "v"+n)
		if err := Seal(v).Write(d); err != nil {
			return nil, err
		}
		specs, dirs = append(specs, v), append(dirs, d)
	}
	ver, err := e.runningVersion()
	if err != nil {
		return nil, err
	}
	g, err := e.github(&Scenario{Releases: Resp{Body: relBody(&relSpec{Tag: ver, Assets: []string{"1pass.tar.gz", "checksum.md5"}})}})
	if err != nil {
		return nil, err
	}
	first := settings{dirs[0], c.Notify, 5, 0}
	home, err := e.home("home", &appConfig{Vault: &dirs[0], Notify: bp(c.Notify), Timeout: ip(5), Period: ip(0)})
	if err != nil {
		return nil, err
	}
	answers := func(set int) (string, settings) {
		s := settings{dirs[set%3], c.Notify, 5 + set, set % 2}
		yn := map[bool]string{true: "y", false: "n"}[s.Notify]
		return fmt.Sprintf("y\n%s\n%s\n%d\n%d\n", s.Vault, yn, s.Timeout, s.Period), s
	}
	// who may be the default vault, and which settings may be stored at the end
	defaults := map[int]bool{0: true}
	finals := map[settings]bool{}
	for i := range c.Procs {
		for _, cmd := range c.Procs[i].Cmds {
			if cmd == "configure" {
				_, s := answers(c.Procs[i].Set)
				finals[s] = true
				defaults[c.Procs[i].Set%3] = true
			}
		}
	}
	if len(finals) == 0 {
		finals[first] = true
	}
	errs := make([]error, len(c.Procs))
	var wg sync.WaitGroup
	one := func(p *c29Proc, k int) error {
		cmd := p.Cmds[k]
		o := &runOpts{Args: []string{cmd}, Home: home, DNS: g.dnsAddr, CA: g.caFile, Limit: 60 * time.Second}
		may := map[int]bool{}
		switch cmd {
		case "configure":
			a, _ := answers(p.Set)
			o.UsePipe, o.Stdin = true, []byte(a)
		case "categories":
			o.UsePipe = true
		default:
			if cmd != "list" {
				o.Args = append(o.Args, uid)
			}
			may = defaults
			if v := p.V[k]; v > 0 {
				o.Args = append(o.Args, "-v", dirs[v-1])
				may = map[int]bool{v - 1: true}
			}
			o.Password = &specs[0].Password
		}
		r, err := e.run(o)
		if err != nil {
			return err
		}
		what := fmt.Sprintf("1pass %s while other commands run", strings.Join(o.Args, " "))
		if r.TimedOut || r.crashed() || r.Exit != 0 {
			return violate("%s: status %d, timed out %v: %s", what, r.Exit, r.TimedOut, show(r.Out))
		}
		switch cmd {
		case "configure":
			if !strings.Contains(r.Out, "1pass configured") {
				return violate("%s: no success: %s", what, show(r.Out))
			}
		case "categories":
			if err := checkCategories(r.Out); err != nil {
				return violate("%s: %v: %s", what, err, show(r.Out))
			}
		default:
			out := r.afterPrompt()
			ok, why := false, ""
			for v := range may {
				var bad error
				it := &specs[v].Items[0]
				switch cmd {
				case "list":
					bad = checkListRows(out, specs[v].query("", "", false))
				case "details":
					if !strings.Contains(out, it.TitleStr()) || !strings.Contains(out, *it.Notes) {
						bad = fmt.Errorf("not the item of %s", dirs[v])
					}
				case "overview":
					if !strings.Contains(out, it.TitleStr()) || strings.Contains(out, "nte-") {
						bad = fmt.Errorf("not the overview of the item of %s", dirs[v])
					}
				}
				if bad == nil {
					ok = true
				} else {
					why = bad.Error()
				}
			}
			n := 0
			for _, m := range []string{"-one", "-two", "-three"} {
				if strings.Contains(out, m) {
					n++
				}
			}
			if !ok || n != 1 {
				return violate("%s: %s: %s", what, why, show(r.Out))
			}
		}
		return nil
	}
	for i := range c.Procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := &c.Procs[i]
			time.Sleep(time.Duration(p.Skew) * 100 * time.Microsecond)
			for k := range p.Cmds {
				if errs[i] = one(p, k); errs[i] != nil {
					return
				}
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return nil, err
		}
	}
	cdir := filepath.Join(home, ".config", "1pass")
	if got := toSettings(openConfig(cdir).GetConfig()); !finals[got] {
		return nil, violate("after commands at the same time the settings are %v, which nobody stored completely (%v)", got, finals)
	}
	ents, err := os.ReadDir(cdir)
	if err != nil {
		return nil, err
	}
	for _, f := range ents {
		if f.Name() != "1pass.yml" && f.Name() != "lastcheck" {
			return nil, violate("after commands at the same time there is a file %q in the configuration directory", f.Name())
		}
	}
	o := &Outcome{Nontrivial: len(c.Procs) > 1}
	writers, readers := 0, 0
	var names []string
	for i := range c.Procs {
		w := false
		for _, cmd := range c.Procs[i].Cmds {
			w = w || cmd == "configure"
		}
		if w {
			writers++
		} else {
			readers++
		}
		names = append(names, strings.Join(c.Procs[i].Cmds, "+"))
	}
	o.label("writers: %d", writers)
	if c.Notify {
		o.label("with update checks")
	}
	o.Sample = strings.Join(names, " | ")
	return o, nil
}

func init() {
	register(&Property{
		ID:        "C29",
		Technique: "property-based testing over schedules: generated sets of commands run at the same time with shared settings and vaults, each compared with what it has to give alone under one of the settings stored meanwhile",
		Rule: "A case runs two to six sequences of one to four commands each (list, details, overview, categories, and up to three sequences with configure) at the same time, in one home directory and on three vaults, with generated starting delays, with or without update checks. " +
			"Non-trivial: every case (at least two sequences).",
		Assume: []string{"interleavings are those the operating system produces", "the update command does not run at the same time"},
		Subs:   []*Sub{racy(mk("cli", 1500, 15000, genC29, runC29))},
	})
}

func racy(s *Sub) *Sub {
	s.Racy = true
	return s
}
