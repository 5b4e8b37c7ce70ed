package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// ---- C05: searching ----

type c05Query struct {
	Cat     string `json:"cat,omitempty"` // code
	Title   string `json:"title,omitempty"`
	Trashed bool   `json:"trashed,omitempty"`
}

type c05Case struct {
	Vault   VaultSpec  `json:"vault"`
	Queries []c05Query `json:"queries"`
	UIDs    []string   `json:"uids,omitempty"`
}

// letters whose upper and lower case correspond one to one
const alCase = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const alCaseX = "àáâãäåæçèéêëìíîïñòóôõöøùúûüýłżźćńąęśÀÉÖŁŻабвгдежзиклмнопрстуфхцчшщъыьэюяАБВГДЕЖЗИКЛМНОПРСТУФХЦЧШЩЫЭЮЯαβγδεζηθικλμνξοπρτυφχψωΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΤΥΦΧΨΩ"

var c05Words = []string{"bank", "Bank", "BANK", "mail", "e-mail", "Mail box", "the", "a", "aa", "aaa", "ab", "aB", "Ab", "AB", "github", "GitHub", "git", "100%", "a.c", "abc", "[x]", "(y)", "c++", "$", "^a", "a*", "?", "\\d",
	"Ünder", "under", "Żółw", "żółw", "ключ", "Ключ", "КЛЮЧ", "日本", "日本語", "😀", "0", "1", "10", "2", "_", "-", "~", "'", "\"", "%s", "%d"}

func genTitle5(t *rapid.T, label string) *string {
	switch intn(t, label+".k", 0, 6) {
	case 0:
		return pick(t, label+".nil", nil, sp(""))
	case 1:
		return sp(stringOf(t, label, alCase+" ", 1, 12))
	case 2:
		return sp(stringOf(t, label, alCaseX+" ", 1, 10))
	case 3:
		return sp(stringOf(t, label, "abAB", 1, 4))
	default:
		ws := rapid.SliceOfN(rapid.SampledFrom(c05Words), 1, 3).Draw(t, label)
		return sp(strings.Join(ws, pick(t, label+".sep", " ", "", "-")))
	}
}

func flipCase(t *rapid.T, label, s string) string {
	switch intn(t, label, 0, 4) {
	case 0:
		return s
	case 1:
		return mapRunes(s, unicode.ToUpper)
	case 2:
		return mapRunes(s, unicode.ToLower)
	default:
		i := intn(t, label+".m", 1, 1<<20)
		n := 0
		return mapRunes(s, func(r rune) rune {
			n++
			if i>>(uint(n)%20)&1 == 1 {
				if u := unicode.ToUpper(r); u != r {
					return u
				}
				return unicode.ToLower(r)
			}
			return r
		})
	}
}

// mapRunes maps only where the mapping is reversible.
func mapRunes(s string, f func(rune) rune) string {
	return strings.Map(func(r rune) rune {
		x := f(r)
		if unicode.ToLower(x) == unicode.ToLower(r) && unicode.ToUpper(x) == unicode.ToUpper(r) {
			return x
		}
		return r
	}, s)
}

func genQuery5(t *rapid.T, label string, v *VaultSpec) c05Query {
	q := c05Query{Trashed: chance(t, label+".tr", 35)}
	var it *ItemSpec
	if len(v.Items) > 0 {
		it = &v.Items[intn(t, label+".it", 0, len(v.Items)-1)]
	}
	if it != nil && chance(t, label+".same", 75) {
		q.Trashed = it.IsTrashed()
	}
	if chance(t, label+".cat", 45) {
		if it != nil && it.known() && chance(t, label+".catof", 70) {
			q.Cat = it.Cat
		} else {
			q.Cat = rapid.SampledFrom(catCodes).Draw(t, label+".catany")
		}
	}
	if chance(t, label+".title", 60) {
		if it != nil && it.TitleStr() != "" && chance(t, label+".sub", 75) {
			r := []rune(it.TitleStr())
			a := intn(t, label+".from", 0, len(r)-1)
			b := intn(t, label+".to", a, len(r)-1)
			q.Title = flipCase(t, label+".case", string(r[a:b+1]))
			if chance(t, label+".extra", 12) {
				q.Title += pick(t, label+".ex", "q", " ", "x", ".")
			}
		} else {
			q.Title = flipCase(t, label+".case", rapid.SampledFrom(c05Words).Draw(t, label+".word"))
		}
	}
	return q
}

func genC05(t *rapid.T) c05Case {
	c := c05Case{Vault: genVault(t, "v", &vaultOpts{minItems: 0, maxItems: 24, item: itemOpts{simple: true, title: genTitle5}})}
	c.Vault.Iter = 1
	narrowCats(t, &c.Vault)
	for i, n := 0, intn(t, "nq", 4, 10); i < n; i++ {
		c.Queries = append(c.Queries, genQuery5(t, fmt.Sprintf("q%d", i), &c.Vault))
	}
	if len(c.Vault.Items) > 0 {
		for i := 0; i < 3; i++ {
			u := c.Vault.Items[intn(t, fmt.Sprintf("u%d", i), 0, len(c.Vault.Items)-1)].UID
			c.UIDs = append(c.UIDs, mangleUID(t, fmt.Sprintf("u%d", i), u))
		}
	}
	return c
}

// narrowCats makes several items share a category more often.
func narrowCats(t *rapid.T, v *VaultSpec) {
	if !chance(t, "narrow", 60) {
		return
	}
	k := intn(t, "ncat", 1, 4)
	for i := range v.Items {
		if v.Items[i].known() {
			v.Items[i].Cat = catCodes[(i*7+k*3)%len(catCodes)%k*4%len(catCodes)]
		}
	}
}

func mangleUID(t *rapid.T, label, u string) string {
	switch intn(t, label+".k", 0, 6) {
	case 0:
		return u[:len(u)-1]
	case 1:
		return u + "0"
	case 2:
		return strings.ToLower(u)
	case 3:
		return " " + u
	case 4:
		return ""
	case 5:
		return u[:8]
	default:
		b := []byte(u)
		i := intn(t, label+".i", 0, len(b)-1)
		if b[i] == 'F' {
			b[i] = '0'
		} else {
			b[i] = 'F'
		}
		return string(b)
	}
}

func (v *VaultSpec) byUID(uid string) *ItemSpec {
	for i := range v.Items {
		if v.Items[i].UID == uid {
			return &v.Items[i]
		}
	}
	return nil
}

func runC05(e *Env, c *c05Case) (*Outcome, error) {
	ss, err := openVault(e, &c.Vault, filepath.Join(e.CaseDir(), "v"))
	if err != nil {
		return nil, err
	}
	o := &Outcome{}
	for _, q := range c.Queries {
		if err := ss.checkQuery(&c.Vault, q.Cat, q.Title, q.Trashed); err != nil {
			return nil, err
		}
		n := len(c.Vault.query(q.Cat, q.Title, q.Trashed))
		if n > 0 && n < len(c.Vault.Items) {
			o.Nontrivial = true
		}
		if n > 1 && (q.Cat != "" || q.Title != "") {
			o.label("several matches")
		}
	}
	// every category and trashed state, counted and listed
	for _, code := range catCodes {
		for _, tr := range []bool{false, true} {
			if err := ss.checkQuery(&c.Vault, code, "", tr); err != nil {
				return nil, err
			}
		}
	}
	for i := range c.Vault.Items {
		it := &c.Vault.Items[i]
		for _, tr := range []bool{false, true} {
			g := ss.f.GetItem(it.UID, tr)
			if want := it.known() && it.IsTrashed() == tr; (g != nil) != want {
				return nil, violate("item %s (category %s, trashed %v) looked up with trashed=%v: found %v", it.UID, it.Cat, it.IsTrashed(), tr, g != nil)
			} else if want && g.Uid != it.UID {
				return nil, violate("looking up %s returns %s", it.UID, g.Uid)
			}
		}
	}
	for _, u := range c.UIDs {
		if c.Vault.byUID(u) != nil {
			continue
		}
		for _, tr := range []bool{false, true} {
			if g := ss.f.GetItem(u, tr); g != nil {
				return nil, violate("looking up %q, which no item has, returns %s", u, g.Uid)
			}
		}
	}
	o.Sample = fmt.Sprintf("%d items, queries %+v", len(c.Vault.Items), c.Queries[:min(3, len(c.Queries))])
	return o, nil
}

// the list command
type c05CliCase struct {
	Vault VaultSpec `json:"vault"`
	Q     c05Query  `json:"q"`
	CName string    `json:"cname,omitempty"` // category name as typed
	Bad   bool      `json:"bad,omitempty"`   // CName names no category
	Long  bool      `json:"long,omitempty"`
}

func genC05Cli(t *rapid.T) c05CliCase {
	c := c05CliCase{Vault: genVault(t, "v", &vaultOpts{minItems: 0, maxItems: 16, typed: true, item: itemOpts{simple: true, title: genTitle5}})}
	c.Vault.Iter = 1
	narrowCats(t, &c.Vault)
	c.Q = genQuery5(t, "q", &c.Vault)
	c.Q.Title = strings.TrimSpace(c.Q.Title)
	c.Long = chance(t, "long", 30)
	if chance(t, "bad", 15) {
		c.Bad = true
		c.CName = badCategory(t)
		c.Q.Cat = ""
	} else if c.Q.Cat != "" {
		c.CName = flipCase(t, "cname", Cats[c.Q.Cat])
	}
	return c
}

// badCategory draws names of no category, mostly close to the name of one.
func badCategory(t *rapid.T) string {
	name := Cats[rapid.SampledFrom(catCodes).Draw(t, "near")]
	out := name
	switch intn(t, "badkind", 0, 6) {
	case 0:
		out = name[:intn(t, "cut", 1, len(name)-1)]
	case 1:
		out = name[intn(t, "cuthead", 1, len(name)-1):]
	case 2:
		out = name + pick(t, "tail", "s", "1", "x", ".", " x")
	case 3:
		out = strings.ReplaceAll(name, " ", pick(t, "gap", "", "  ", "-", "_", "\u00a0", "\t"))
	case 4:
		w := strings.Fields(name)
		out = w[intn(t, "word", 0, len(w)-1)]
	case 5:
		out = Cats2code(name)
	default:
		out = ""
	}
	out = flipCase(t, "badcase", strings.TrimSpace(out))
	for _, n := range Cats {
		if out == "" || strings.EqualFold(out, n) {
			return pick(t, "badname", "Logins", "001", "Log in", "x", "Bank", "Bank  Account", "Credit-Card", "All", "Trashed", "logi", "loginn", "Password1", "密码", "-")
		}
	}
	return out
}

func Cats2code(name string) string {
	for c, n := range Cats {
		if n == name {
			return c
		}
	}
	return ""
}

func runC05Cli(e *Env, c *c05CliCase) (*Outcome, error) {
	dir := filepath.Join(e.CaseDir(), "v")
	if err := Seal(&c.Vault).Write(dir); err != nil {
		return nil, err
	}
	home, err := e.quietHome("")
	if err != nil {
		return nil, err
	}
	flag := func(s, l string) string {
		if c.Long {
			return "--" + l
		}
		return "-" + s
	}
	args := []string{"list", flag("v", "vault"), dir}
	if c.CName != "" {
		args = append(args, flag("c", "category"), c.CName)
	}
	if c.Q.Title != "" {
		args = append(args, flag("n", "name"), c.Q.Title)
	}
	if c.Q.Trashed {
		args = append(args, flag("t", "trashed"))
	}
	r, err := e.run(&runOpts{Args: args, Home: home, Password: &c.Vault.Password})
	if err != nil {
		return nil, err
	}
	if r.TimedOut || r.crashed() {
		return nil, violate("1pass %q fails: exit %d, timed out %v, %s", args, r.Exit, r.TimedOut, show(r.Out))
	}
	o := &Outcome{Nontrivial: true}
	if c.Bad {
		o.label("unknown category name")
		if r.Exit == 0 || !strings.Contains(r.Out, "unknown item category") {
			return nil, violate("1pass %q does not reject the category name %q: exit %d, %s", args, c.CName, r.Exit, show(r.Out))
		}
		if len(listRows(r.afterPrompt())) > 0 {
			return nil, violate("1pass %q lists items for the unknown category name %q: %s", args, c.CName, show(r.Out))
		}
		return o, nil
	}
	if r.Exit != 0 || !r.Prompted {
		return nil, violate("1pass %q fails: exit %d, %s", args, r.Exit, show(r.Out))
	}
	if err := checkListRows(r.afterPrompt(), c.Vault.query(c.Q.Cat, c.Q.Title, c.Q.Trashed)); err != nil {
		return nil, violate("1pass %q: %v; output %s", args, err, show(r.afterPrompt()))
	}
	n := len(c.Vault.query(c.Q.Cat, c.Q.Title, c.Q.Trashed))
	switch {
	case n == 0:
		o.label("no match")
	case n == 1:
		o.label("one match")
	default:
		o.label("several matches")
	}
	o.Sample = fmt.Sprintf("%q: %d of %d items", args[3:], n, len(c.Vault.Items))
	return o, nil
}

// checkListRows compares a list table with the expected items; rows that agree in category and title may
// come in any order.
func checkListRows(out string, want []*ItemSpec) error {
	rows := listRows(out)
	if len(rows) != len(want) {
		return fmt.Errorf("%d rows are listed, %d items match", len(rows), len(want))
	}
	if len(want) == 0 {
		if !strings.Contains(out, "No results") {
			return fmt.Errorf("no table and no message about missing results")
		}
		return nil
	}
	key := func(cat, title string) string { return cat + "|" + strings.TrimSpace(title) }
	var got, exp [][2]string
	for i, r := range rows {
		if len(r) != 4 {
			return fmt.Errorf("row %d has %d cells: %q", i, len(r), r)
		}
		got = append(got, [2]string{key(r[2], r[3]), r[1]})
	}
	for _, it := range want {
		exp = append(exp, [2]string{key(Cats[it.Cat], it.TitleStr()), it.UID})
	}
	for i := range exp {
		if got[i][0] != exp[i][0] {
			return fmt.Errorf("row %d is %q, want %q", i+1, got[i][0], exp[i][0])
		}
	}
	s := func(x [][2]string) string {
		var l []string
		for _, y := range x {
			l = append(l, y[0]+"|"+y[1])
		}
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	if s(got) != s(exp) {
		return fmt.Errorf("the listed ids differ: %q, want %q", s(got), s(exp))
	}
	return nil
}

// ---- C06: lock histories ----

type c06Op struct {
	Op    string     `json:"op"` // right, wrong, lock, query, disk, validate, rekey, away
	Pw    string     `json:"pw,omitempty"`
	How   int        `json:"how,omitempty"` // of rekey: what is changed
	Items []ItemSpec `json:"items,omitempty"`
	Q     c05Query   `json:"q,omitempty"`
}

type c06Case struct {
	Vault VaultSpec `json:"vault"`
	Ops   []c06Op   `json:"ops"`
}

func genC06(t *rapid.T) c06Case {
	o := &vaultOpts{minItems: 0, maxItems: 6, item: itemOpts{simple: true, title: genTitle5}}
	c := c06Case{Vault: genVault(t, "v", o)}
	c.Vault.Iter = 1 + c.Vault.Iter%5
	c.Vault.Password = strings.ReplaceAll(c.Vault.Password, "\x00", "n")
	n := intn(t, "nops", 2, 14)
	locked := true
	items := c.Vault.Items
	cur := c.Vault.Password
	var old []string
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("op%d", i)
		op := c06Op{Op: pick(t, l, "right", "right", "right", "wrong", "wrong", "lock", "lock", "query", "query", "disk", "disk", "validate", "rekey", "away")}
		if (op.Op == "disk" || op.Op == "rekey" || op.Op == "away") && !locked {
			op.Op = "lock"
		}
		switch op.Op {
		case "right":
			locked = false
		case "lock":
			locked = true
		case "wrong":
			op.Pw = nearMiss(t, l+".pw", cur, false)
			if len(old) > 0 && chance(t, l+".old", 60) {
				op.Pw = rapid.SampledFrom(old).Draw(t, l+".oldpw")
			}
			if rawPw(op.Pw) == rawPw(cur) {
				op.Pw += "x"
			}
		case "rekey":
			old = append(old, cur)
			op.How = intn(t, l+".how", 0, 4)
			if !chance(t, l+".same", 30) {
				cur = pick(t, l+".new", cur+"2", "new "+cur, stringOf(t, l+".newpw", alLower, 1, 12))
			}
			op.Pw = cur
		case "query":
			op.Q = genQuery5(t, l+".q", &VaultSpec{Items: items})
		case "disk":
			used := map[string]bool{}
			var next []ItemSpec
			for k := range items {
				it := items[k]
				switch intn(t, fmt.Sprintf("%s.i%d", l, k), 0, 4) {
				case 0:
					continue
				case 1:
					it.Trashed = 2 - it.Trashed
				case 2:
					it.Title = genTitle5(t, fmt.Sprintf("%s.t%d", l, k))
				}
				used[it.UID] = true
				next = append(next, it)
			}
			for k, m := 0, intn(t, l+".new", 0, 2); k < m; k++ {
				next = append(next, genItem(t, fmt.Sprintf("%s.n%d", l, k), used, &o.item))
			}
			items = next
			op.Items = next
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runC06(e *Env, c *c06Case) (*Outcome, error) {
	dir := filepath.Join(e.CaseDir(), "v")
	cur := c.Vault
	if err := Seal(&cur).Write(dir); err != nil {
		return nil, err
	}
	ss := newSession(e, dir)
	if err := ss.f.Validate(ss.vault); err != nil {
		return nil, violate("a well-formed vault is rejected: %v", err)
	}
	if err := ss.checkLockedOut(&cur, "at the start"); err != nil {
		return nil, err
	}
	const (
		stLocked = iota
		stOpen
		stUnsure // a wrong attempt while unlocked
	)
	st := stLocked
	o := &Outcome{}
	unlocks, relocks := 0, 0
	disk := false
	for i, op := range c.Ops {
		when := fmt.Sprintf("after operation %d (%s)", i, op.Op)
		switch op.Op {
		case "right":
			if err := ss.f.Unlock(ss.vault, rawPw(cur.Password)); err != nil {
				return nil, violate("%s: the right password is refused: %v", when, err)
			}
			if st == stLocked {
				unlocks++
				if disk {
					o.label("reopened after a change on disk")
				}
			}
			st = stOpen
		case "wrong":
			if err := ss.f.Unlock(ss.vault, rawPw(op.Pw)); err == nil {
				return nil, violate("%s: password %q is accepted instead of %q", when, op.Pw, cur.Password)
			}
			if st == stOpen {
				st = stUnsure
			}
		case "lock":
			ss.f.Lock()
			if st != stLocked {
				relocks++
			}
			st = stLocked
		case "validate":
			if err := ss.f.Validate(ss.vault); err != nil {
				return nil, violate("%s: the vault is rejected: %v", when, err)
			}
		case "disk":
			if st != stLocked {
				continue
			}
			cur.Items = op.Items
			if err := Seal(&cur).WriteBands(dir); err != nil {
				return nil, err
			}
			disk = true
		case "rekey":
			if st != stLocked {
				continue
			}
			// the vault gets another password and other keys
			cur = rekeyed(cur, op.Pw, op.How)
			if err := os.RemoveAll(dir); err != nil {
				return nil, err
			}
			if err := Seal(&cur).Write(dir); err != nil {
				return nil, err
			}
			disk = true
			o.label("password and keys changed while locked")
		case "away":
			if st != stLocked {
				continue
			}
			// an attempt while the vault is not there
			if err := os.Rename(dir, dir+".away"); err != nil {
				return nil, err
			}
			if err := ss.f.Unlock(ss.vault, rawPw(cur.Password)); err == nil {
				return nil, violate("%s: a vault that is not there is unlocked", when)
			}
			if err := os.Rename(dir+".away", dir); err != nil {
				return nil, err
			}
			o.label("attempt while the vault is not there")
		case "query":
			if st == stOpen {
				if err := ss.checkQuery(&cur, op.Q.Cat, op.Q.Title, op.Q.Trashed); err != nil {
					return nil, violate("%s: %v", when, err)
				}
			}
			if st == stLocked {
				var cat = catByCode(op.Q.Cat)
				if l := ss.f.GetItems(cat, op.Q.Title, op.Q.Trashed); len(l) > 0 {
					return nil, violate("%s: a search of the locked vault returns %d items", when, len(l))
				}
			}
		}
		switch st {
		case stLocked:
			if err := ss.checkLockedOut(&cur, when); err != nil {
				return nil, err
			}
			if err := ss.checkLockedOut(&c.Vault, when); err != nil {
				return nil, err
			}
		case stOpen:
			if !ss.f.IsUnlocked() {
				return nil, violate("%s: the vault counts as locked", when)
			}
			if err := ss.checkBasic(&cur, when); err != nil {
				return nil, err
			}
		}
	}
	o.Nontrivial = unlocks >= 1 && relocks >= 1
	if unlocks >= 2 {
		o.label("opened repeatedly")
	}
	var names []string
	for _, op := range c.Ops {
		names = append(names, op.Op)
	}
	o.Sample = strings.Join(names, " ")
	return o, nil
}

func init() {
	register(&Property{
		ID:        "C05",
		Technique: "property-based testing: generated vaults and queries against a reference search, through the session API and the list command",
		Rule: "A case is a vault of 0-24 items with clashing titles and categories plus 4-10 generated searches (sub-strings of titles in changed case, categories, trashed state), counts for all categories, and look-ups by exact and mangled ids; or one list command. " +
			"Non-trivial: a search that matches some but not all items (API), any command run (CLI).",
		Assume: []string{"searched letters have one-to-one upper and lower case forms", "titles of command cases are single-line without box-drawing characters, searched texts of command cases do not begin or end with blanks"},
		Subs: []*Sub{
			mk("api", 30000, 300000, genC05, runC05),
			mk("list", 6000, 60000, genC05Cli, runC05Cli),
		},
	})
}
