package main

// C31: the vault's files are replaced, one by one and atomically, by a synchronisation tool while they are read.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"pgregory.net/rapid"
)

type c31Step struct {
	Band int `json:"band"` // -1: the profile, -2: another file comes and goes
	To   int `json:"to"`   // version
	Gap  int `json:"gap"`  // µs before it
}

type c31Case struct {
	Seed  int       `json:"seed"`
	Items int       `json:"items"`
	Bands int       `json:"bands"`
	Big   int       `json:"big,omitempty"` // KB of notes per item
	Miss  int       `json:"miss"`          // every n-th version of an item is missing
	First int       `json:"first"`         // bands that are there at the start
	Steps []c31Step `json:"steps"`         // repeated until the readers are done
	Reads int       `json:"reads"`
	Gap   int       `json:"gap"` // µs between readings
	Cmds  []string  `json:"cmds,omitempty"`
	Of    []int     `json:"of,omitempty"`
}

const c31Versions = 5

func genC31(cli bool) func(t *rapid.T) c31Case {
	return func(t *rapid.T) c31Case {
		c := c31Case{Seed: intn(t, "seed", 0, 1<<20), Items: intn(t, "items", 1, 24), Bands: intn(t, "bands", 1, 6), Miss: pick(t, "miss", 0, 0, 3, 5, 7), Gap: pick(t, "gap", 0, 100, 500, 2000)}
		c.Big = pick(t, "big", 0, 0, 0, 1, 20, 200)
		if c.Big > 20 {
			c.Items = 1 + c.Items%4
		}
		c.First = intn(t, "first", 1, c.Bands)
		gaps := []int{0, 0, 20, 50, 200, 1000}
		if cli {
			gaps = []int{0, 50, 500, 1000, 3000}
		}
		for i, n := 0, intn(t, "nsteps", 1, 12); i < n; i++ {
			l := fmt.Sprintf("s%d", i)
			c.Steps = append(c.Steps, c31Step{Band: intn(t, l+".b", -2, c.Bands-1), To: intn(t, l+".to", 0, c31Versions-1), Gap: rapid.SampledFrom(gaps).Draw(t, l+".gap")})
		}
		if !cli {
			c.Reads = intn(t, "reads", 1, 12)
			return c
		}
		for i, n := 0, intn(t, "ncmds", 1, 5); i < n; i++ {
			l := fmt.Sprintf("c%d", i)
			c.Cmds = append(c.Cmds, pick(t, l, "list", "list -t", "details", "details", "overview", "details -t"))
			c.Of = append(c.Of, intn(t, l+".of", 0, c.Items-1))
		}
		return c
	}
}

func (c *c31Case) uid(i int) string { return fmt.Sprintf("%X%031X", i%c.Bands, 0xC31000+i) }

// item i in version w; nil if it is not there.
func (c *c31Case) item(i, w int) *ItemSpec {
	if c.Miss > 0 && (i+w)%c.Miss == 0 {
		return nil
	}
	d := newDet(uint64(c.Seed), fmt.Sprintf("c31/%d/%d", i, w)).bytes(4)
	tag := func(what string) *string { return sp(fmt.Sprintf("%s%dv%dx", what, i, w)) }
	notes := *tag("nte")
	if c.Big > 0 {
		// lengths differ between the versions
		notes += " " + strings.Repeat(fmt.Sprintf("%d.", w), c.Big*256+int(d[0])*c.Big)
	}
	return &ItemSpec{UID: c.uid(i), Cat: catCodes[int(d[1])%len(catCodes)], Trashed: int(d[2]) % 3, Created: 1600000000 + int64(w), Updated: 1700000000 + int64(w)*100, Title: tag("ttl"), URL: tag("url"), Notes: sp(notes),
		Sections: []SectionSpec{{Name: "s", Title: tag("sec"), Fields: []FieldSpec{{Kind: "string", Name: "f", Label: "value", Str: tag("val")}}}}, HasSect: true}
}

type c31Event struct {
	to       int
	pre, end time.Time
}

// c31Disk is the vault under the synchronisation tool.
type c31Disk struct {
	c     *c31Case
	dir   string
	text  [c31Versions]map[string]string
	mu    sync.Mutex
	log   [][]c31Event // per band
	stop  chan struct{}
	done  chan struct{}
	err   error
	steps int
}

func (c *c31Case) disk(dir, pw string) (*c31Disk, error) {
	d := &c31Disk{c: c, dir: dir, stop: make(chan struct{}), done: make(chan struct{})}
	base := VaultSpec{Password: pw, Salt: []byte("c31 salt c31 salt"), Iter: 2, Seed: uint64(c.Seed)}
	for w := 0; w < c31Versions; w++ {
		v := base
		for i := 0; i < c.Items; i++ {
			if it := c.item(i, w); it != nil {
				v.Items = append(v.Items, *it)
			}
		}
		v.Empty = "0123456789ABCDEF"[:c.Bands]
		s := Seal(&v)
		d.text[w] = s.Bands()
		if w == 0 {
			v.Items, v.Empty = nil, ""
			if err := Seal(&v).Write(dir); err != nil {
				return nil, err
			}
		}
	}
	d.log = make([][]c31Event, c.Bands)
	for b := 0; b < c.Bands; b++ {
		w := -1 // not there
		if b < c.First {
			w = 0
			if err := os.WriteFile(d.path(b), []byte(d.text[0][filepath.Base(d.path(b))]), 0o644); err != nil {
				return nil, err
			}
		}
		d.log[b] = []c31Event{{to: w}}
	}
	return d, nil
}

func (d *c31Disk) path(b int) string {
	return filepath.Join(d.dir, "default", fmt.Sprintf("band_%X.js", b))
}

func (d *c31Disk) replace(path, text string) error {
	tmp := filepath.Join(filepath.Dir(path), ".tmp-"+filepath.Base(path)+"~")
	if err := os.WriteFile(tmp, []byte(text), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}

func (d *c31Disk) sync() {
	defer close(d.done)
	profile := filepath.Join(d.dir, "default", "profile.js")
	ptext, err := os.ReadFile(profile)
	if err != nil {
		d.err = err
		return
	}
	for n := 0; ; n++ {
		s := d.c.Steps[n%len(d.c.Steps)]
		select {
		case <-d.stop:
			return
		default:
		}
		if s.Gap > 0 {
			time.Sleep(time.Duration(s.Gap) * time.Microsecond)
		} else {
			runtime.Gosched()
		}
		switch s.Band {
		case -1:
			d.err = d.replace(profile, string(ptext))
		case -2:
			tmp := filepath.Join(d.dir, "default", ".sync-part")
			if d.err = os.WriteFile(tmp, []byte("{"), 0o644); d.err == nil {
				d.err = os.Remove(tmp)
			}
		default:
			// versions go round, so that repeated rounds change something
			w := (s.To + n/len(d.c.Steps)) % c31Versions
			path := d.path(s.Band)
			d.mu.Lock()
			d.log[s.Band] = append(d.log[s.Band], c31Event{to: w, pre: time.Now(), end: time.Now().Add(time.Hour)})
			k := len(d.log[s.Band]) - 1
			d.mu.Unlock()
			d.err = d.replace(path, d.text[w][filepath.Base(path)])
			d.mu.Lock()
			d.log[s.Band][k].end = time.Now()
			d.mu.Unlock()
		}
		d.steps++
		if d.err != nil {
			return
		}
	}
}

func (d *c31Disk) finish() error {
	close(d.stop)
	<-d.done
	return d.err
}

// versions of a band somebody who reads between from and to may see.
func (d *c31Disk) versions(b int, from, to time.Time) []int {
	d.mu.Lock()
	defer d.mu.Unlock()
	var out []int
	for k, ev := range d.log[b] {
		if k > 0 && ev.pre.After(to) {
			break
		}
		if k+1 < len(d.log[b]) && d.log[b][k+1].end.Before(from) {
			continue
		}
		out = append(out, ev.to)
	}
	return out
}

// judge: the items of each band have to be those of one version that was there during the reading. (A
// directory entry that is replaced may be read twice, so a later version may also be put over an earlier
// one.)
func (d *c31Disk) judge(from, to time.Time, match func(i int, want *ItemSpec) error) (changed bool, err error) {
	for b := 0; b < d.c.Bands; b++ {
		vs := d.versions(b, from, to)
		changed = changed || len(vs) > 1
		try := func(w1, w2 int) error {
			for i := b; i < d.c.Items; i += d.c.Bands {
				var want *ItemSpec
				if w2 >= 0 {
					want = d.c.item(i, w2)
				}
				if want == nil && w1 >= 0 {
					want = d.c.item(i, w1)
				}
				if err := match(i, want); err != nil {
					return fmt.Errorf("not version %d (over %d): %w", w2, w1, err)
				}
			}
			return nil
		}
		ok := false
		var why []string
		for x := 0; x < len(vs) && !ok; x++ {
			for y := x; y < len(vs) && !ok; y++ {
				bad := try(vs[x], vs[y])
				ok = bad == nil
				if bad != nil && x == y {
					why = append(why, bad.Error())
				}
			}
		}
		if !ok {
			return changed, fmt.Errorf("band %X shows none of the versions %v it had meanwhile: %s", b, vs, strings.Join(why, "; "))
		}
	}
	return changed, nil
}

func runC31api(e *Env, c *c31Case) (*Outcome, error) {
	dir := filepath.Join(e.CaseDir(), "v")
	d, err := c.disk(dir, "secret")
	if err != nil {
		return nil, err
	}
	go d.sync()
	defer func() {
		select {
		case <-d.stop:
		default:
			d.finish()
		}
	}()
	ss := newSession(e, dir)
	o := &Outcome{}
	seen := map[string]*domain.Item{}
	snapshot := func() map[string]*domain.Item {
		out := map[string]*domain.Item{}
		for i := 0; i < c.Items; i++ {
			for _, tr := range []bool{false, true} {
				if g := ss.f.GetItem(c.uid(i), tr); g != nil {
					out[fmt.Sprint(i, tr)] = g
				}
			}
		}
		return out
	}
	for r := 0; r < c.Reads; r++ {
		when := fmt.Sprintf("reading %d while the vault is synchronised", r)
		time.Sleep(time.Duration(c.Gap) * time.Microsecond)
		if err := ss.f.Validate(ss.vault); err != nil {
			return nil, violate("%s: the vault is rejected: %v", when, err)
		}
		from := time.Now()
		if err := ss.f.Unlock(ss.vault, "secret"); err != nil {
			return nil, violate("%s: the right password is refused: %v", when, err)
		}
		to := time.Now()
		seen = snapshot()
		changed, err := d.judge(from, to, func(i int, want *ItemSpec) error {
			a, b := seen[fmt.Sprint(i, false)], seen[fmt.Sprint(i, true)]
			if a != nil && b != nil {
				return fmt.Errorf("item %d is found twice", i)
			}
			if a == nil {
				a = b
			}
			if want == nil || a == nil {
				if want != nil || a != nil {
					return fmt.Errorf("item %d: shown %v, stored %v", i, a != nil, want != nil)
				}
				return nil
			}
			if err := checkItemHead(a, want); err != nil {
				return err
			}
			return checkSections(a, want, time.Local)
		})
		if err != nil {
			return nil, violate("%s: %v", when, err)
		}
		if changed {
			o.Nontrivial = true
			o.label("a band was replaced during the reading")
		}
		// lists and counts say the same, now and later
		for again := 0; again < 2; again++ {
			for _, tr := range []bool{false, true} {
				n := 0
				for k := range seen {
					if strings.HasSuffix(k, fmt.Sprint(tr)) {
						n++
					}
				}
				l := ss.f.GetItems(nil, "", tr)
				if len(l) != n || ss.f.CountItems(nil, tr) != n {
					return nil, violate("%s: %d items are found, %d listed, %d counted (trashed %v)", when, n, len(l), ss.f.CountItems(nil, tr), tr)
				}
				for _, si := range l {
					g := ss.f.GetItem(si.Uid, tr)
					if g == nil || g.Title != si.Title || g.Category != si.Category {
						return nil, violate("%s: item %s is listed as %q, which it is not", when, si.Uid, si.Title)
					}
				}
			}
			time.Sleep(time.Duration(c.Gap) * time.Microsecond)
			now := snapshot()
			if len(now) != len(seen) {
				return nil, violate("%s: the open vault changes from %d to %d items", when, len(seen), len(now))
			}
			for k, g := range now {
				if s := seen[k]; s == nil || s.Title != g.Title || s.Notes != g.Notes || s.Updated != g.Updated || fmt.Sprint(shownSections(s)) != fmt.Sprint(shownSections(g)) {
					return nil, violate("%s: item %s of the open vault changes", when, k)
				}
			}
		}
		ss.f.Lock()
	}
	if err := d.finish(); err != nil {
		return nil, err
	}
	o.Sample = fmt.Sprintf("%d items in %d bands, %d readings, %d replacements", c.Items, c.Bands, c.Reads, d.steps)
	return o, nil
}

var c31Tag = regexp.MustCompile(`(?i)(ttl|nte|val|sec|url)(\d+)v(\d+)x`)

func runC31cli(e *Env, c *c31Case) (*Outcome, error) {
	dir := filepath.Join(e.CaseDir(), "v")
	pw := "secret"
	d, err := c.disk(dir, pw)
	if err != nil {
		return nil, err
	}
	home, err := e.quietHome(dir)
	if err != nil {
		return nil, err
	}
	go d.sync()
	defer func() {
		select {
		case <-d.stop:
		default:
			d.finish()
		}
	}()
	o := &Outcome{}
	for k, cmd := range c.Cmds {
		args := strings.Fields(cmd)
		i := c.Of[k]
		trashed := strings.HasSuffix(cmd, "-t")
		if args[0] != "list" {
			args = append(args, c.uid(i))
		}
		what := fmt.Sprintf("1pass %s while the vault is synchronised", strings.Join(args, " "))
		time.Sleep(time.Duration(c.Gap) * time.Microsecond)
		from := time.Now()
		r, err := e.run(&runOpts{Args: args, Home: home, Password: &pw})
		if err != nil {
			return nil, err
		}
		to := time.Now()
		if r.TimedOut || r.crashed() || r.Exit != 0 && args[0] == "list" {
			return nil, violate("%s: status %d, timed out %v: %s", what, r.Exit, r.TimedOut, show(r.Out))
		}
		out := r.afterPrompt()
		var changed bool
		if args[0] == "list" {
			rows := map[string][]string{}
			for _, row := range listRows(out) {
				if len(row) != 4 || rows[row[1]] != nil {
					return nil, violate("%s: row %q: %s", what, row, show(out))
				}
				rows[row[1]] = row
			}
			n := 0
			changed, err = d.judge(from, to, func(i int, want *ItemSpec) error {
				row := rows[c.uid(i)]
				if want != nil && want.IsTrashed() != trashed {
					want = nil
				}
				if want == nil || row == nil {
					if want != nil || row != nil {
						return fmt.Errorf("item %d: listed %v, expected %v", i, row != nil, want != nil)
					}
					return nil
				}
				if row[2] != Cats[want.Cat] || row[3] != want.TitleStr() {
					return fmt.Errorf("item %d: listed as %q", i, row)
				}
				n++
				return nil
			})
		} else {
			tags := map[string]bool{}
			for _, m := range c31Tag.FindAllStringSubmatch(out, -1) {
				if m[2] != fmt.Sprint(i) {
					return nil, violate("%s: another item is shown: %s", what, show(out))
				}
				tags[strings.ToLower(m[1])+m[3]] = true
			}
			changed, err = d.judge(from, to, func(j int, want *ItemSpec) error {
				if j != i {
					return nil
				}
				exp := map[string]bool{}
				if want != nil && want.IsTrashed() == trashed {
					v := want.TitleStr()[strings.Index(want.TitleStr(), "v")+1:]
					v = strings.TrimSuffix(v, "x")
					exp["ttl"+v], exp["url"+v], exp["sec"+v] = true, true, true
					if args[0] == "details" {
						exp["nte"+v], exp["val"+v] = true, true
					}
				}
				if len(exp) != len(tags) {
					return fmt.Errorf("shown %v, expected %v", keysOf(tags), keysOf(exp))
				}
				for k := range exp {
					if !tags[k] {
						return fmt.Errorf("shown %v, expected %v", keysOf(tags), keysOf(exp))
					}
				}
				return nil
			})
		}
		if err != nil {
			return nil, violate("%s: %v: %s", what, err, show(out))
		}
		if changed {
			o.Nontrivial = true
			o.label("a band was replaced during the command")
		}
	}
	if err := d.finish(); err != nil {
		return nil, err
	}
	o.Sample = fmt.Sprintf("%d items in %d bands, %s, %d replacements", c.Items, c.Bands, strings.Join(c.Cmds, ", "), d.steps)
	return o, nil
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func init() {
	register(&Property{
		ID:        "C31",
		Technique: "property-based testing over schedules: readings of a vault whose files are atomically replaced at the same time by generated versions, each compared with the versions that were on disk meanwhile",
		Rule: "A case is a vault of up to 24 items in up to six bands, five versions of every item (another title, fields, notes, category, trashed flag, or absent), a tool that replaces bands, the profile and other files by renaming, at generated intervals, and readings (sessions, or the commands list, overview, details) at the same time. " +
			"Non-trivial: at least one band was replaced during a reading.",
		Assume: []string{"files are replaced by renaming, as synchronisation tools do", "interleavings are those the operating system produces", "a directory entry may be read twice when it is replaced"},
		Subs: []*Sub{
			racy(mk("api", 3000, 60000, genC31(false), runC31api)),
			racy(mk("cli", 700, 7000, genC31(true), runC31cli)),
		},
	})
}
