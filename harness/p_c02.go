package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"
)

type c02Case struct {
	Vault VaultSpec `json:"vault"`
	Dir   string    `json:"dir"`
	Decoy bool      `json:"decoy,omitempty"` // another vault in a sibling directory
}

func genC02(t *rapid.T) c02Case {
	c := c02Case{Vault: genVault(t, "v", &vaultOpts{minItems: 0, maxItems: 14, item: itemOpts{control: true}})}
	c.Dir = cleanDirName(genDirName(t, "dir"))
	c.Decoy = chance(t, "decoy", 30)
	if n := len(c.Vault.Items); n > 0 && chance(t, "huge", 3) { // texts around and beyond 64 KiB
		size := pick(t, "hugesize", 65000, 65520, 65536, 65550, 70000, 131072, 200000, 400000) + intn(t, "hugeoff", 0, 40)
		txt := detString(uint64(intn(t, "hugeseed", 0, 1<<30)), alLower+"  \n", size)
		it := &c.Vault.Items[intn(t, "hugeitem", 0, n-1)]
		switch intn(t, "hugewhere", 0, 3) {
		case 0:
			it.Title = &txt
		case 1:
			it.URL = &txt
		default:
			it.Notes = &txt
		}
	}
	if chance(t, "bulk", 1) { // as many items as real vaults have
		n, seed := intn(t, "bulkn", 100, 1200), uint64(intn(t, "bulkseed", 0, 1<<30))
		for i := 0; i < n; i++ {
			h := detString(seed+uint64(i), "0123456789ABCDEF", 32)
			c.Vault.Items = append(c.Vault.Items, ItemSpec{UID: h, Cat: catCodes[i%len(catCodes)], Trashed: i % 3, Title: sp("bulk " + h[:9]), Created: 1500000000 + int64(i), Updated: 1600000000 - int64(i), Notes: sp("n" + h)})
		}
	}
	return c
}

func openVault(e *Env, v *VaultSpec, dir string) (*session, error) {
	s := Seal(v)
	if err := s.Write(dir); err != nil {
		return nil, err
	}
	return unlockAt(e, v, dir)
}

func unlockAt(e *Env, v *VaultSpec, dir string) (*session, error) {
	ss := newSession(e, dir)
	if err := ss.f.Validate(ss.vault); err != nil {
		return nil, violate("a well-formed vault at %q is rejected: %v", dir, err)
	}
	if err := ss.f.Unlock(ss.vault, rawPw(v.Password)); err != nil {
		return nil, violate("a well-formed vault at %q cannot be unlocked: %v", dir, err)
	}
	return ss, nil
}

func runC02(e *Env, c *c02Case) (*Outcome, error) {
	root := filepath.Join(e.CaseDir(), "root")
	dir := filepath.Join(root, c.Dir)
	if c.Decoy {
		// names that a pattern built from the vault's name could match
		for i, d := range []string{"a", "b", "x1", "qq", "default2", "zz"} {
			dv := VaultSpec{Password: "other", Salt: []byte{1}, Iter: 1, Seed: uint64(i), Items: []ItemSpec{{UID: fmt.Sprintf("%X", i) + "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", Cat: "001", Title: sp("decoy")}}}
			if d != c.Dir {
				if err := Seal(&dv).Write(filepath.Join(root, d)); err != nil {
					return nil, err
				}
			}
		}
	}
	ss, err := openVault(e, &c.Vault, dir)
	if err != nil {
		return nil, err
	}
	if err := ss.checkBasic(&c.Vault, "after unlocking"); err != nil {
		return nil, err
	}
	o := &Outcome{Nontrivial: len(c.Vault.Items) >= 1}
	unk, bands := 0, map[byte]bool{}
	for i := range c.Vault.Items {
		if !c.Vault.Items[i].known() {
			unk++
		}
		bands[c.Vault.Items[i].UID[0]] = true
	}
	if unk > 0 {
		o.label("has unknown category")
	}
	if len(bands) > 1 {
		o.label("several bands")
	}
	if c.Vault.Empty != "" {
		o.label("has empty band")
	}
	if len(c.Vault.Items) == 0 {
		o.label("no items")
	}
	o.Sample = fmt.Sprintf("%d items in %d bands at %q", len(c.Vault.Items), len(bands), c.Dir)
	return o, nil
}

// big vaults: many items, large bands
type c02BigCase struct {
	N    int    `json:"n"`
	Len  int    `json:"len"`
	Seed uint64 `json:"seed"`
	Huge int    `json:"huge,omitempty"` // length of the texts of one more item
	One  bool   `json:"one,omitempty"`  // all in one band
}

func genC02Big(t *rapid.T) c02BigCase {
	c := c02BigCase{N: pick(t, "n", 50, 100, 300, 1000, 2500, 6000, 12000), Len: pick(t, "len", 0, 10, 100, 3000, 20000), Seed: uint64(intn(t, "seed", 0, 1<<30))}
	c.N += intn(t, "plus", 0, 40)
	if c.N > 2000 {
		c.Len = min(c.Len, 100)
	}
	c.One = chance(t, "one", 30)
	if chance(t, "hashuge", 30) {
		c.Huge = pick(t, "huge", 70000, 300000, 2000000)
	}
	return c
}

func runC02Big(e *Env, c *c02BigCase) (*Outcome, error) {
	v := VaultSpec{Password: "big", Salt: []byte("salt"), Iter: 2, Seed: c.Seed}
	r := newDet(c.Seed, "big")
	used := map[string]bool{}
	for i := 0; i < c.N; i++ {
		b := r.bytes(8)
		uid := detString(c.Seed+uint64(i)*7919+uint64(b[0]), "0123456789ABCDEF", 32)
		if c.One {
			uid = "C" + uid[1:]
		}
		if used[uid] {
			continue
		}
		used[uid] = true
		n := 0
		if c.Len > 0 {
			n = (int(b[1])<<8 | int(b[2])) % c.Len
		}
		it := ItemSpec{UID: uid, Cat: catCodes[int(b[3])%len(catCodes)], Trashed: int(b[4]) % 3, Created: int64(b[5]) * 1000003, Updated: int64(b[6]) * 2000003,
			Title: sp(fmt.Sprintf("Title %d", i)), Notes: sp(detString(uint64(i), alASCII, n)), URL: sp("http://x/" + uid)}
		v.Items = append(v.Items, it)
	}
	if c.Huge > 0 {
		v.Items = append(v.Items, ItemSpec{UID: "D" + strings.Repeat("0", 31), Cat: "003", Created: 1, Updated: 2,
			Title: sp(detString(c.Seed+1, alASCII, c.Huge)), Notes: sp(detString(c.Seed+2, alASCII+alCyr, c.Huge)), URL: sp("http://" + detString(c.Seed+3, alLower, c.Huge))})
	}
	ss, err := openVault(e, &v, filepath.Join(e.CaseDir(), "v"))
	if err != nil {
		return nil, err
	}
	if err := ss.checkBasic(&v, "after unlocking"); err != nil {
		return nil, err
	}
	return &Outcome{Nontrivial: true, Sample: fmt.Sprintf("%d items, notes up to %d, texts up to %d", c.N, c.Len, c.Huge)}, nil
}

// details command
type itemCliCase struct {
	Vault VaultSpec `json:"vault"`
	Pick  int       `json:"pick"`
	TZ    string    `json:"tz"`
	Dir   string    `json:"dir"`
}

var zones = []string{"UTC", "UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Europe/Warsaw", "Pacific/Honolulu"}

func location(name string) *time.Location {
	l, err := time.LoadLocation(name)
	if err != nil {
		panic("time zone data missing: " + name)
	}
	return l
}

// genPlainItemCli leaves out fields and sections (they belong to another property).
func genPlainItemCli(t *rapid.T) itemCliCase {
	c := genItemCli(t)
	for i := range c.Vault.Items {
		it := &c.Vault.Items[i]
		it.HasForm, it.HasSect, it.Form, it.Sections = false, false, nil, nil
	}
	return c
}

func genItemCli(t *rapid.T) itemCliCase {
	c := itemCliCase{Vault: genVault(t, "v", &vaultOpts{minItems: 1, maxItems: 3, typed: true, item: itemOpts{known: true}})}
	c.Pick = intn(t, "pick", 0, len(c.Vault.Items)-1)
	c.TZ = rapid.SampledFrom(zones).Draw(t, "tz")
	c.Dir = cleanDirName(genDirName(t, "dir"))
	return c
}

func runItemCli(details bool) func(e *Env, c *itemCliCase) (*Outcome, error) {
	return func(e *Env, c *itemCliCase) (*Outcome, error) {
		dir := filepath.Join(e.CaseDir(), "r", c.Dir)
		if err := Seal(&c.Vault).Write(dir); err != nil {
			return nil, err
		}
		home, err := e.quietHome("")
		if err != nil {
			return nil, err
		}
		it := &c.Vault.Items[c.Pick%len(c.Vault.Items)]
		cmd := "overview"
		if details {
			cmd = "details"
		}
		r, err := e.run(&runOpts{Args: cmdArgs(cmd, dir, it), Home: home, Password: &c.Vault.Password, TZ: c.TZ})
		if err != nil {
			return nil, err
		}
		if r.TimedOut || r.crashed() || r.Exit != 0 || !r.Prompted {
			return nil, violate("1pass %s of item %s fails: exit %d, timed out %v, %s", cmd, it.UID, r.Exit, r.TimedOut, show(r.Out))
		}
		if err := matchLines(r.afterPrompt(), it.itemLines(details, location(c.TZ))); err != nil {
			return nil, violate("1pass %s of item %s: %v; output %s", cmd, it.UID, err, show(r.afterPrompt()))
		}
		o := &Outcome{Nontrivial: true}
		o.Sample = fmt.Sprintf("1pass %s of %q (%s, TZ %s)", cmd, it.TitleStr(), Cats[it.Cat], c.TZ)
		return o, nil
	}
}

// ---- C03 ----

type c03Case struct {
	Item  ItemSpec `json:"item"`
	Style int      `json:"style"`
	TZ    string   `json:"tz"`
}

func genC03(t *rapid.T) c03Case {
	return c03Case{Item: genItem(t, "i", map[string]bool{}, &itemOpts{known: true, control: true}), Style: intn(t, "style", 0, 2),
		TZ: rapid.SampledFrom(zones).Draw(t, "tz")}
}

func runC03(e *Env, c *c03Case) (*Outcome, error) {
	loc := location(c.TZ)
	time.Local = loc
	defer func() { time.Local = time.UTC }()
	v := VaultSpec{Password: "p", Salt: []byte("s"), Iter: 1, Seed: 5, Items: []ItemSpec{c.Item}, Escape: c.Style}
	ss, err := openVault(e, &v, filepath.Join(e.CaseDir(), "v"))
	if err != nil {
		return nil, err
	}
	g := ss.f.GetItem(c.Item.UID, c.Item.IsTrashed())
	if g == nil {
		return nil, violate("item is not available")
	}
	if err := checkSections(g, &c.Item, loc); err != nil {
		return nil, violate("%v", err)
	}
	if err := checkItemHead(g, &c.Item); err != nil {
		return nil, violate("%v", err)
	}
	secs := c.Item.sections(loc)
	nf := 0
	for _, s := range secs {
		nf += len(s.Fields)
	}
	o := &Outcome{Nontrivial: nf >= 2}
	if len(c.Item.Form) > 0 && len(c.Item.Sections) > 0 {
		o.label("form and sections")
	}
	for _, s := range c.Item.Sections {
		for i := range s.Fields {
			if s.Fields[i].hasValue() {
				o.label("kind %s", s.Fields[i].Kind)
			}
		}
	}
	o.Sample = fmt.Sprintf("%d fields in %d sections, TZ %s", nf, len(secs), c.TZ)
	return o, nil
}

func init() {
	register(&Property{
		ID:        "C02",
		Technique: "property-based testing: generated vaults written by an independent encoder, read back through the session API and the details command",
		Rule: "A case is a generated vault (0-1000 items over up to 16 bands, empty bands, known and unknown categories, texts of any script and of lengths around cipher-block boundaries, any directory name, decoy vaults beside it), " +
			"read back through the session API or 1pass details and compared item by item with what was written. Non-trivial: at least one stored item.",
		Assume: []string{"item ids are 32 upper-case hexadecimal digits, as 1Password writes them", "texts of command cases contain no control characters"},
		Subs: []*Sub{
			mk("api", 24000, 240000, genC02, runC02),
			mk("big", 96, 1000, genC02Big, runC02Big),
			mk("details", 4000, 40000, genPlainItemCli, runItemCli(true)),
		},
	})
	register(&Property{
		ID:        "C03",
		Technique: "property-based testing: generated item details compared with a reference rendering, through the session API and the details command",
		Rule: "A case is an item with generated login-form fields and sections (all field kinds, missing and null values, Unicode labels and values, dates over centuries, several time zones); the displayed sections are compared with a reference rendering. " +
			"Non-trivial: at least two displayed fields (API), any command run (CLI).",
		Assume: []string{"section fields have the members k and t; kinds other than date, monthYear and address have text values that are not empty; month-years have six digits"},
		Subs: []*Sub{
			mk("api", 60000, 500000, genC03, runC03),
			mk("details", 4000, 40000, genItemCli, runItemCli(true)),
		},
	})
}
