package main

import (
	"encoding/binary"
	"fmt"
	"path/filepath"
	"time"

	"pgregory.net/rapid"
)

// ---- C04: altered ciphertext ----

type c04Alter struct {
	Part string `json:"part"` // o, d, k
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b"`
}

type c04Case struct {
	Vault  VaultSpec  `json:"vault"`
	Target int        `json:"target"`
	Alter  []c04Alter `json:"alter"`
	Fresh  bool       `json:"fresh,omitempty"` // the item's own MAC is recomputed
}

var c04Kinds = []string{"flip", "flip", "flip", "cut", "cuthead", "extend", "dropblock", "dupblock", "swapblocks", "other", "random", "empty", "macflip", "maccut",
	"zeromac", "emptykey", "zerokey", "size", "magic", "cutmac", "onlymac", "header"}

func genC04Alters(t *rapid.T) []c04Alter {
	var out []c04Alter
	n := intn(t, "nalter", 1, 2)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("alt%d", i)
		a := c04Alter{Part: pick(t, l+".part", "o", "d", "k"), A: intn(t, l+".a", 0, 100000), B: intn(t, l+".b", 0, 7)}
		if used[a.Part] {
			continue
		}
		used[a.Part] = true
		switch {
		case chance(t, l+".txt", 12):
			a.Kind = "text"
		default:
			a.Kind = rapid.SampledFrom(c04Kinds).Draw(t, l+".kind")
		}
		out = append(out, a)
	}
	return out
}

func genC04(t *rapid.T) c04Case {
	c := c04Case{Vault: genVault(t, "v", &vaultOpts{minItems: 1, maxItems: 5, item: itemOpts{known: true, control: true}})}
	c.Vault.Iter = 1 + c.Vault.Iter%20
	c.Target = intn(t, "target", 0, len(c.Vault.Items)-1)
	c.Alter = genC04Alters(t)
	c.Fresh = chance(t, "fresh", 40)
	return c
}

func genC04Cli(t *rapid.T) c04Case {
	c := c04Case{Vault: genVault(t, "v", &vaultOpts{minItems: 1, maxItems: 3, typed: true, item: itemOpts{known: true}})}
	c.Vault.Iter = 1 + c.Vault.Iter%20
	c.Target = intn(t, "target", 0, len(c.Vault.Items)-1)
	c.Alter = genC04Alters(t)
	c.Fresh = chance(t, "fresh", 40)
	return c
}

// alterBlob changes one blob for certain, or reports false when the kind does not apply.
func alterBlob(b, other []byte, a *c04Alter) ([]byte, bool) {
	out := append([]byte(nil), b...)
	n := len(out)
	blocks := (n - 32 - 32) / 16
	switch a.Kind {
	case "cut", "cuthead", "extend", "flip":
		return tamperBytes(out, a.Kind, a.A, a.B), true
	case "dropblock", "dupblock", "swapblocks":
		if a.Part == "k" || blocks < 2 {
			return nil, false
		}
		i := 32 + 16*(a.A%blocks)
		if a.Kind == "dropblock" {
			return append(out[:i], b[i+16:]...), true
		}
		if a.Kind == "dupblock" {
			return append(append(append([]byte(nil), b[:i+16]...), b[i:i+16]...), b[i+16:]...), true
		}
		j := 32 + 16*((a.A%blocks+1)%blocks)
		copy(out[i:i+16], b[j:j+16])
		copy(out[j:j+16], b[i:i+16])
		return out, string(out) != string(b)
	case "other":
		return append([]byte(nil), other...), len(other) > 0 && string(other) != string(b)
	case "random":
		return newDet(uint64(a.A), "rnd").bytes(a.A % 300), true
	case "empty":
		return nil, true
	case "macflip":
		out[n-1-a.A%32] ^= 1 << uint(a.B)
		return out, true
	case "maccut":
		return out[:n-1-a.A%32], true
	case "cutmac":
		return out[:n-32], true
	case "onlymac":
		return out[n-32:], true
	case "header":
		return out[:a.A%33], true
	case "zeromac":
		for i := n - 32; i < n; i++ {
			out[i] = 0
		}
		return out, true
	case "emptykey", "zerokey": // altered content with a MAC anybody can compute
		out[(a.A % (n - 32))] ^= 1 << uint(a.B)
		key := []byte{}
		if a.Kind == "zerokey" {
			key = make([]byte, 32)
		}
		copy(out[n-32:], hmac256(key, out[:n-32]))
		return out, true
	case "size":
		if a.Part == "k" || n < 16 {
			return nil, false
		}
		cur := binary.LittleEndian.Uint64(out[8:16])
		vals := []uint64{0, cur - 1, cur + 1, cur + 16, 1 << 40, 1<<63 - 1, ^uint64(0), 1 << 63, uint64(n), uint64(n - 64)}
		v := vals[a.A%len(vals)]
		binary.LittleEndian.PutUint64(out[8:16], v)
		return out, v != cur
	case "magic":
		if a.Part == "k" {
			return nil, false
		}
		copy(out, "opdata02")
		return out, true
	}
	return nil, false
}

type c04Expect struct {
	noOver, noDet, maybeDet, maybeOver bool
}

// applyAlters alters the sealed target item and says what may be seen of it.
func applyAlters(s *Sealed, c *c04Case) (ex c04Expect, did []string) {
	ri := s.Items[c.Target]
	oi := s.Items[(c.Target+1)%len(s.Items)]
	for i := range c.Alter {
		a := &c.Alter[i]
		if a.Kind == "text" {
			continue
		}
		var cur *[]byte
		var other []byte
		switch a.Part {
		case "o":
			cur = &ri.O
			other = ri.D
		case "d":
			cur = &ri.D
			if oi != ri {
				other = oi.D
			} else {
				other = ri.O
			}
			if a.A%4 == 0 {
				other = ri.O
			}
		case "k":
			cur = &ri.K
			if oi != ri {
				other = oi.K
			}
		}
		// the key and the details of another item together would be authentic content of that item
		if a.Kind == "other" && a.Part != "o" && len(c.Alter) > 1 {
			continue
		}
		nb, ok := alterBlob(*cur, other, a)
		if !ok {
			continue
		}
		*cur = nb
		did = append(did, a.Part+"/"+a.Kind)
		switch a.Part {
		case "o":
			ex.noOver = true
		case "d":
			ex.noDet = true
		case "k":
			ex.maybeDet = true
		}
	}
	if c.Fresh {
		ri.refresh(s.keys.ovMac)
	} else {
		ri.Memb["o"], ri.Memb["d"], ri.Memb["k"] = b64(ri.O), b64(ri.D), b64(ri.K)
	}
	for i := range c.Alter {
		a := &c.Alter[i]
		if a.Kind != "text" {
			continue
		}
		cur := ri.Memb[a.Part].(string)
		txt := pick2(a.A, "", "!", "====", "not base64", cur+"!", cur+"====", "*"+cur, cur[:len(cur)/2]+"#"+cur[len(cur)/2:], cur[:len(cur)/2], "A", "AA", "AAA")
		ri.Memb[a.Part] = txt
		did = append(did, a.Part+"/text")
		switch a.Part {
		case "o":
			ex.maybeOver = true
		default:
			ex.maybeDet = true
		}
	}
	return
}

// variants are the admissible appearances of the altered item.
func (ex *c04Expect) variants(it *ItemSpec) []*ItemSpec {
	over := []bool{!ex.noOver}
	if ex.maybeOver && !ex.noOver {
		over = []bool{true, false}
	}
	det := []bool{!ex.noDet}
	if ex.maybeDet && !ex.noDet {
		det = []bool{true, false}
	}
	var out []*ItemSpec
	for _, o := range over {
		for _, d := range det {
			x := *it
			if !o {
				x.Title, x.URL = nil, nil
			}
			if !d {
				x.Notes, x.Form, x.Sections, x.HasForm, x.HasSect = nil, nil, nil, false, false
			}
			out = append(out, &x)
		}
	}
	return out
}

func runC04(e *Env, c *c04Case) (*Outcome, error) {
	s := Seal(&c.Vault)
	ex, did := applyAlters(s, c)
	dir := filepath.Join(e.CaseDir(), "v")
	if err := s.Write(dir); err != nil {
		return nil, err
	}
	ss, err := unlockAt(e, &c.Vault, dir)
	if err != nil {
		return nil, err
	}
	total := ss.f.CountItems(nil, false) + ss.f.CountItems(nil, true)
	if total != len(c.Vault.Items) {
		return nil, violate("%v: %d of %d items are available", did, total, len(c.Vault.Items))
	}
	titles := map[string]string{}
	for _, tr := range []bool{false, true} {
		for _, si := range ss.f.GetItems(nil, "", tr) {
			titles[si.Uid] = si.Title
		}
	}
	for i := range c.Vault.Items {
		it := &c.Vault.Items[i]
		vars := []*ItemSpec{it}
		if i == c.Target {
			vars = ex.variants(it)
		}
		g := ss.f.GetItem(it.UID, it.IsTrashed())
		if g == nil {
			return nil, violate("%v: item %s (altered item: %v) is not available", did, it.UID, i == c.Target)
		}
		var last error
		ok := false
		for _, v := range vars {
			if last = checkItemHead(g, v); last != nil {
				continue
			}
			if last = checkSections(g, v, time.UTC); last != nil {
				continue
			}
			if last = nil; titles[it.UID] != v.TitleStr() {
				last = fmt.Errorf("listed title %q, want %q", titles[it.UID], v.TitleStr())
				continue
			}
			ok = true
			break
		}
		if !ok {
			return nil, violate("alterations %v of item %s: %v", did, c.Vault.Items[c.Target].UID, last)
		}
	}
	o := &Outcome{Nontrivial: len(did) > 0}
	for _, d := range did {
		o.label("%s", d)
	}
	o.Sample = fmt.Sprintf("%v in a vault of %d items", did, len(c.Vault.Items))
	return o, nil
}

func runC04Cli(e *Env, c *c04Case) (*Outcome, error) {
	s := Seal(&c.Vault)
	ex, did := applyAlters(s, c)
	dir := filepath.Join(e.CaseDir(), "v")
	if err := s.Write(dir); err != nil {
		return nil, err
	}
	home, err := e.quietHome("")
	if err != nil {
		return nil, err
	}
	for i := range c.Vault.Items {
		it := &c.Vault.Items[i]
		vars := []*ItemSpec{it}
		if i == c.Target {
			vars = ex.variants(it)
		}
		r, err := e.run(&runOpts{Args: cmdArgs("details", dir, it), Home: home, Password: &c.Vault.Password})
		if err != nil {
			return nil, err
		}
		if r.TimedOut || r.crashed() || r.Exit != 0 || !r.Prompted {
			return nil, violate("1pass details of item %s fails after alterations %v of item %s: exit %d, timed out %v, %s", it.UID, did, c.Vault.Items[c.Target].UID, r.Exit, r.TimedOut, show(r.Out))
		}
		var last error
		for _, v := range vars {
			if last = matchLines(r.afterPrompt(), v.itemLines(true, time.UTC)); last == nil {
				break
			}
		}
		if last != nil {
			return nil, violate("1pass details of item %s after alterations %v of item %s: %v; output %s", it.UID, did, c.Vault.Items[c.Target].UID, last, show(r.afterPrompt()))
		}
	}
	o := &Outcome{Nontrivial: len(did) > 0}
	for _, d := range did {
		o.label("%s", d)
	}
	o.Sample = fmt.Sprintf("%v in a vault of %d items", did, len(c.Vault.Items))
	return o, nil
}

func init() {
	register(&Property{
		ID:        "C04",
		Technique: "fault injection with generated inputs: authentic vaults altered at the level of the encrypted blobs, against the reference model",
		Rule: "A case is a generated vault of 1-5 items and one or two alterations of one item's overview, details or key blob (bit flips, cuts, extensions, dropped, repeated or exchanged cipher blocks, blobs of other items, " +
			"recomputed MACs under guessable keys, wrong size headers, undecodable text). Every item is then compared with its admissible appearances, through the session API or 1pass details. Non-trivial: at least one blob really altered.",
		Assume: []string{"overview blobs are not exchanged between items and key and details blobs are not moved together to another item (the format authenticates them under shared keys)",
			"text that is not base64 may count as absent or as its decodable beginning"},
		Subs: []*Sub{
			mk("api", 50000, 500000, genC04, runC04),
			mk("details", 3000, 30000, genC04Cli, runC04Cli),
		},
	})
}
