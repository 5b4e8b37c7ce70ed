package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// ---- C21: malformed files ----

type c21Mut struct {
	Where string `json:"where"` // profile, band, overview, details (JSON before encryption)
	Kind  string `json:"kind"`
	A     int    `json:"a"`
	B     int    `json:"b"`
	Text  string `json:"text,omitempty"`
}

type c21Case struct {
	Vault VaultSpec `json:"vault"`
	Muts  []c21Mut  `json:"muts"`
	Cmd   string    `json:"cmd"`
	Pick  int       `json:"pick"`
}

var c21ProfileTexts = []string{"", "v", "var profile", "var profile=", "var profile=;", "var profile=null;", "var profile=[];", "var profile={};", "var profile=0;",
	"var profile=\"x\";", "var profile={}", "{}", "\n", "\x00", "var profile={\"salt\":\"\",\"iterations\":1,\"masterKey\":\"\",\"overviewKey\":\"\"};",
	"var profile={\"salt\":1};", "var profile={\"salt\":null,\"iterations\":null,\"masterKey\":null,\"overviewKey\":null};", "\ufeffvar profile={};", "ld({});",
	"0123456789ab", "0123456789abc", "var profile=}{;"}

var c21BandTexts = []string{"", "l", "ld", "ld(", "ld()", "ld();", "ld({", "ld({}", "ld({});", "ld({})", "ld(null);", "ld([]);", "ld(0);", "ld(\"x\");", "{}", "\n", "\x00\x00\x00\x00\x00\x00\x00\x00",
	"ld({\"A\":null});", "ld({\"A\":{}});", "ld({\"A\":[]});", "ld({\"A\":1});", "ld({\"A\":\"x\"});", "ld({\"A\":{\"category\":\"001\"}});", "ld({,});", "ld({}{});", "ld({\"\":{}});",
	"ld({\"A\":{\"category\":\"001\",\"created\":1,\"updated\":1,\"d\":\"\",\"o\":\"\",\"k\":\"\",\"hmac\":\"\"}});",
	"ld({\"A\":{\"category\":\"001\",\"created\":1e400,\"updated\":1,\"d\":\"\",\"o\":\"\",\"k\":\"\",\"hmac\":\"\"}});", "ld({});ld({});", "}{}{}{}{", "xxxx}xxx", "abc", "abcd", "abcdef", "abcdefg"}

var c21Values = []string{"null", "0", "-1", "1.5", "1e300", "-1e300", "true", "false", "\"\"", "\"x\"", "\"001\"", "[]", "{}", "[null]", "[1]", "[[]]", "[{}]", "[\"x\"]", "{\"a\":null}",
	"{\"a\":1}", "{\"a\":{}}", "[{\"fields\":null}]", "[{\"fields\":[{\"v\":1,\"k\":\"string\",\"t\":\"a\"}]}]", "[{\"fields\":[{\"v\":\"x\"}]}]", "[{\"fields\":[{\"v\":\"x\",\"k\":1,\"t\":2}]}]",
	"[{\"fields\":[{\"v\":\"x\",\"k\":\"address\",\"t\":\"a\"}]}]", "[{\"fields\":[{\"v\":{\"a\":1},\"k\":\"address\",\"t\":\"a\"}]}]", "[{\"fields\":[{\"v\":[],\"k\":\"date\",\"t\":\"a\"}]}]",
	"[{\"name\":1,\"value\":1}]", "[{\"name\":\"a\",\"value\":{}}]", "[{\"title\":1}]", "\"\\u0000\"", "123456789012345678901234567890"}

func genC21(t *rapid.T) c21Case {
	c := c21Case{Vault: genVault(t, "v", &vaultOpts{minItems: 1, maxItems: 3, typed: true, item: itemOpts{title: plainTitle}})}
	c.Vault.Iter = 1 + c.Vault.Iter%20
	for i := range c.Vault.Items {
		if len(deref(c.Vault.Items[i].Notes)) > 200 {
			c.Vault.Items[i].Notes = sp("short")
		}
	}
	c.Cmd = pick(t, "cmd", "list", "list", "details", "overview")
	c.Pick = intn(t, "pick", 0, len(c.Vault.Items)-1)
	n := intn(t, "nmut", 1, 3)
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("m%d", i)
		m := c21Mut{Where: pick(t, l+".where", "profile", "profile", "band", "band", "band", "overview", "details", "details"), A: intn(t, l+".a", 0, 1<<20), B: intn(t, l+".b", 0, 255)}
		switch {
		case m.Where == "overview" || m.Where == "details":
			m.Kind = pick(t, l+".kind", "jset", "jset", "jset", "jdel", "whole", "bytes")
		default:
			m.Kind = pick(t, l+".kind", "set", "flip", "cut", "cuthead", "insert", "delete", "whole", "whole", "jset", "jset", "jset", "jdel", "jdel", "nest", "append", "chmod", "isdir", "gone")
		}
		switch m.Kind {
		case "whole":
			switch m.Where {
			case "profile":
				m.Text = rapid.SampledFrom(c21ProfileTexts).Draw(t, l+".text")
			case "band":
				m.Text = rapid.SampledFrom(c21BandTexts).Draw(t, l+".text")
			default:
				m.Text = pick(t, l+".text", "", "{", "null", "[]", "{}", "0", "\"x\"", "nul", "{\"title\":{}}", "\x00", "{}{}")
			}
		case "jset":
			m.Text = rapid.SampledFrom(c21Values).Draw(t, l+".val")
		case "insert", "append":
			m.Text = pick(t, l+".ins", "{", "}", "\"", ",", "\n", "\x00", "\\", "null", ";", ")", "0", " ", "\xff\xfe", "\\u12", "[[", "\r\n", "//x")
		}
		c.Muts = append(c.Muts, m)
	}
	return c
}

// jsonPaths lists the members and elements of a JSON value.
func jsonPaths(v any, pre []string, out *[][]string) {
	switch x := v.(type) {
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			p := append(append([]string{}, pre...), k)
			*out = append(*out, p)
			jsonPaths(x[k], p, out)
		}
	case []any:
		for i := range x {
			p := append(append([]string{}, pre...), strconv.Itoa(i))
			*out = append(*out, p)
			jsonPaths(x[i], p, out)
		}
	}
}

func jsonEdit(v any, path []string, del bool, nv any) any {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case map[string]any:
		if len(path) == 1 && del {
			delete(x, path[0])
			return x
		}
		x[path[0]] = jsonEdit(x[path[0]], path[1:], del, nv)
		return x
	case []any:
		i, _ := strconv.Atoi(path[0])
		if len(path) == 1 && del {
			return append(x[:i:i], x[i+1:]...)
		}
		x[i] = jsonEdit(x[i], path[1:], del, nv)
		return x
	}
	return v
}

func mutateJSON(text []byte, m *c21Mut) []byte {
	dec := json.NewDecoder(strings.NewReader(string(text)))
	dec.UseNumber()
	var v any
	if dec.Decode(&v) != nil {
		return text
	}
	var ps [][]string
	jsonPaths(v, nil, &ps)
	if len(ps) == 0 {
		return text
	}
	p := ps[m.A%len(ps)]
	var nv any
	if m.Kind == "jset" {
		nv = json.RawMessage(m.Text)
	}
	v = jsonEdit(v, p, m.Kind == "jdel", nv)
	b, err := json.Marshal(v)
	if err != nil {
		return text
	}
	return b
}

// mutateText applies a textual or structural mutation to a file; prefix and suffix frame its JSON.
func mutateText(b []byte, m *c21Mut, prefix, suffix string) []byte {
	n := len(b)
	at := 0
	if n > 0 {
		at = m.A % n
	}
	switch m.Kind {
	case "whole":
		return []byte(m.Text)
	case "bytes":
		return newDet(uint64(m.A), "by").bytes(m.A % 60)
	case "set":
		if n > 0 {
			b = append([]byte(nil), b...)
			b[at] = byte(m.B)
		}
	case "flip":
		if n > 0 {
			b = append([]byte(nil), b...)
			b[at] ^= 1 << uint(m.B%8)
		}
	case "cut":
		return b[:at]
	case "cuthead":
		return b[at:]
	case "insert":
		return append(append(append([]byte(nil), b[:at]...), m.Text...), b[at:]...)
	case "append":
		return append(append([]byte(nil), b...), m.Text...)
	case "delete":
		e := at + 1 + m.B%40
		if e > n {
			e = n
		}
		return append(append([]byte(nil), b[:at]...), b[e:]...)
	case "nest":
		d := []int{100, 5000, 9999, 10001, 50000, 200000}[m.A%6]
		o, c := "[", "]"
		if m.B%2 == 1 {
			o, c = `{"a":`, "}"
		}
		return []byte(prefix + `{"A":` + strings.Repeat(o, d) + "0" + strings.Repeat(c, d) + "}" + suffix)
	case "jset", "jdel":
		s := string(b)
		if strings.HasPrefix(s, prefix) && strings.HasSuffix(s, suffix) && len(s) >= len(prefix)+len(suffix) {
			return []byte(prefix + string(mutateJSON([]byte(s[len(prefix):len(s)-len(suffix)]), m)) + suffix)
		}
	}
	return b
}

var iterRe = regexp.MustCompile(`(?i)"iterations"\s*:\s*([-+0-9.eE]+)`)

func hugeIter(profile []byte) bool {
	for _, m := range iterRe.FindAllSubmatch(profile, -1) {
		f, err := strconv.ParseFloat(string(m[1]), 64)
		if err == nil && f > 200000 {
			return true
		}
	}
	return false
}

func runC21(e *Env, c *c21Case) (*Outcome, error) {
	s := Seal(&c.Vault)
	inner := false
	for i := range c.Muts {
		m := &c.Muts[i]
		if m.Where != "overview" && m.Where != "details" {
			continue
		}
		inner = true
		idx := (c.Pick + m.B) % len(s.Items)
		s.resealMutated(idx, m)
	}
	dir := filepath.Join(e.CaseDir(), "v")
	if err := s.Write(dir); err != nil {
		return nil, err
	}
	def := filepath.Join(dir, "default")
	prof := filepath.Join(def, "profile.js")
	for i := range c.Muts {
		m := &c.Muts[i]
		var path, pre, suf string
		switch m.Where {
		case "profile":
			path, pre, suf = prof, "var profile=", ";"
		case "band":
			var names []string
			for n := range s.Bands() {
				names = append(names, n)
			}
			sort.Strings(names)
			path, pre, suf = filepath.Join(def, names[m.B%len(names)]), "ld(", ");"
		default:
			continue
		}
		b, err := os.ReadFile(path)
		if err != nil {
			continue // an earlier mutation made it a directory or removed it
		}
		switch m.Kind {
		case "gone":
			os.Remove(path)
			continue
		case "isdir":
			os.Remove(path)
			os.Mkdir(path, 0o755)
			continue
		case "chmod":
			os.Chmod(path, 0)
			continue
		}
		if err := os.WriteFile(path, mutateText(b, m, pre, suf), 0o644); err != nil {
			return nil, err
		}
	}
	if b, err := os.ReadFile(prof); err == nil && hugeIter(b) {
		return &Outcome{Labels: []string{"skipped: huge iteration count"}}, nil
	}
	home, err := e.quietHome("")
	if err != nil {
		return nil, err
	}
	it := &c.Vault.Items[c.Pick]
	args := []string{c.Cmd}
	if c.Cmd != "list" {
		args = append(args, it.UID)
	}
	if it.IsTrashed() {
		args = append(args, "-t")
	}
	args = append(args, "-v", dir)
	r, err := e.run(&runOpts{Args: args, Home: home, Password: &c.Vault.Password})
	if err != nil {
		return nil, err
	}
	if r.TimedOut {
		return nil, violate("1pass %s does not end: %s", c.Cmd, show(r.Out))
	}
	if r.crashed() {
		return nil, violate("1pass %s crashes: exit %d %s", c.Cmd, r.Exit, show(r.Out))
	}
	o := &Outcome{Nontrivial: true}
	if r.Exit != 0 {
		o.label("refused")
		msg := strings.TrimSpace(strings.ReplaceAll(r.Out, "Password:", ""))
		if msg == "" {
			return nil, violate("1pass %s ends with status %d and no message", c.Cmd, r.Exit)
		}
		if i := c.leak(r.Out); i >= 0 && c.Cmd == "list" && !r.Prompted {
			return nil, violate("1pass %s shows vault content without a password: %s", c.Cmd, show(r.Out))
		}
	} else {
		o.label("works")
		if !r.Prompted {
			return nil, violate("1pass %s succeeds without asking for the password: %s", c.Cmd, show(r.Out))
		}
		if !inner && c.Cmd == "list" {
			if err := c.listOnlyStored(r.afterPrompt()); err != nil {
				return nil, err
			}
		}
		if !inner && c.Cmd != "list" {
			if err := c.itemOnlyStored(r.afterPrompt()); err != nil {
				return nil, err
			}
		}
	}
	var ms []string
	for _, m := range c.Muts {
		ms = append(ms, m.Where+"/"+m.Kind)
		o.label("%s/%s", m.Where, m.Kind)
	}
	o.Sample = fmt.Sprintf("1pass %s with %v: exit %d", c.Cmd, ms, r.Exit)
	return o, nil
}

func (c *c21Case) leak(out string) int {
	for i := range c.Vault.Items {
		if strings.Contains(out, c.Vault.Items[i].TitleStr()) {
			return i
		}
	}
	return -1
}

// listOnlyStored: every title shown is the title of a stored item (titles are authenticated), or empty.
func (c *c21Case) listOnlyStored(out string) error {
	have := map[string]bool{"": true}
	for i := range c.Vault.Items {
		have[c.Vault.Items[i].TitleStr()] = true
	}
	for _, row := range listRows(out) {
		if len(row) >= 4 && !have[row[3]] {
			return violate("the list shows title %q, which no stored item has: %s", row[3], show(out))
		}
	}
	return nil
}

// itemOnlyStored: title, if any, belongs to a stored item.
func (c *c21Case) itemOnlyStored(out string) error {
	if strings.Contains(out, "do not exist") {
		return nil
	}
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Updated:") {
			return nil
		}
		if l == "" || ruler(l) {
			continue
		}
		ok := false
		for _, n := range Cats {
			ok = ok || l == n
		}
		for i := range c.Vault.Items {
			ok = ok || l == c.Vault.Items[i].TitleStr()
		}
		if !ok {
			return violate("the item's head shows %q, which is neither a category nor the title of a stored item: %s", l, show(out))
		}
	}
	return nil
}

// listRows returns the cells of the rows of a list table.
func listRows(out string) [][]string {
	var rows [][]string
	for _, l := range strings.Split(out, "\n") {
		l = strings.Trim(l, "\r ")
		// the frame may be drawn in any style
		bar := ""
		for _, x := range []string{"║", "│", "┃", "|"} {
			if strings.HasPrefix(l, x) {
				bar = x
			}
		}
		if bar == "" {
			continue
		}
		l = strings.TrimSuffix(strings.TrimPrefix(l, bar), bar)
		if bar != "|" {
			for _, x := range []string{"║", "┃"} {
				l = strings.ReplaceAll(l, x, "│")
			}
			bar = "│"
		}
		cells := strings.SplitN(l, bar, 4)
		for i := range cells {
			cells[i] = strings.TrimSpace(cells[i])
		}
		if len(cells) >= 4 {
			if _, err := strconv.Atoi(strings.TrimSuffix(cells[0], ".")); err != nil {
				continue // header
			}
		}
		rows = append(rows, cells)
	}
	return rows
}

// resealMutated encrypts altered JSON in place of an item's overview or details.
func (s *Sealed) resealMutated(idx int, m *c21Mut) {
	it := &s.Spec.Items[idx]
	r := newDet(s.Spec.Seed+uint64(m.A)+1, "reseal"+m.Where)
	if m.Where == "overview" {
		plain := mutateText(it.overviewJSON(0), m, "", "")
		s.resealPlain(idx, m.Where, plain, r)
	} else {
		plain := mutateText(it.detailsJSON(0), m, "", "")
		s.resealPlain(idx, m.Where, plain, r)
	}
}

// resealPlain encrypts any text as an item's overview or details.
func (s *Sealed) resealPlain(idx int, where string, plain []byte, r *detRand) {
	ri := s.Items[idx]
	if where == "overview" {
		ri.O = opdata(plain, s.keys.ovKey, s.keys.ovMac, r)
	} else {
		ik := r.bytes(64)
		iv := r.bytes(16)
		kb := append(append([]byte(nil), iv...), cbcEnc(s.keys.masKey, iv, ik)...)
		ri.K = append(kb, hmac256(s.keys.masMac, kb)...)
		ri.D = opdata(plain, ik[:32], ik[32:], r)
	}
	ri.refresh(s.keys.ovMac)
}

// ---- content: well-encrypted items whose decrypted JSON is of any shape ----

type c21ContentCase struct {
	Vault VaultSpec `json:"vault"`
	Idx   int       `json:"idx"`
	Over  string    `json:"over,omitempty"` // JSON of the overview ("" leaves it)
	Det   string    `json:"det,omitempty"`
}

func jq(s string) string { b, _ := json.Marshal(s); return string(b) }

// genScalar draws JSON values as a field may hold them, well-formed or not.
func genScalar(t *rapid.T, label string) string {
	switch intn(t, label+".k", 0, 9) {
	case 0:
		return rapid.SampledFrom(c21Values).Draw(t, label+".odd")
	case 1: // digits as text, any length
		return jq(stringOf(t, label+".digits", "0123456789", 0, 9))
	case 2:
		return strconv.Itoa(intn(t, label+".int", -20000, 20000))
	case 3:
		return pick(t, label+".num", "0", "1", "12", "123", "1234", "12345", "20209", "202012", "2020123", "-5", "1e5", "1.5", "0.1", "1e20", "-1e20", "9223372036854775807", "9223372036854775808", "1e308", "253402300800", "-62135596801")
	case 4:
		return jq(stringOf(t, label+".multi", "é日😀0123", 0, 5))
	case 5:
		return jq(stringOf(t, label+".odd", "0123456789-/ .eEx+", 0, 10))
	case 6:
		n := intn(t, label+".parts", 0, 4)
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, jq(pick(t, fmt.Sprintf("%s.p%d", label, i), "street", "city", "zip", "", "x", "country"))+":"+rapid.SampledFrom(c21Values).Draw(t, fmt.Sprintf("%s.pv%d", label, i)))
		}
		return "{" + strings.Join(ps, ",") + "}"
	case 7:
		return jq(genText(t, label+".text", true, true))
	default:
		return jq(stringOf(t, label+".s", alLower+" ", 0, 12))
	}
}

func genObject(t *rapid.T, label string, member ...func(l string) (string, string)) string {
	if chance(t, label+".other", 6) {
		return rapid.SampledFrom(c21Values).Draw(t, label+".otherv")
	}
	var ms []string
	for i, m := range member {
		l := fmt.Sprintf("%s.%d", label, i)
		if chance(t, l+".absent", 10) {
			continue
		}
		k, v := m(l)
		ms = append(ms, jq(k)+":"+v)
	}
	return "{" + strings.Join(ms, ",") + "}"
}

func genArray(t *rapid.T, label string, max int, el func(l string) string) string {
	if chance(t, label+".other", 6) {
		return rapid.SampledFrom(c21Values).Draw(t, label+".otherv")
	}
	var es []string
	for i, n := 0, intn(t, label+".n", 0, max); i < n; i++ {
		es = append(es, el(fmt.Sprintf("%s.%d", label, i)))
	}
	return "[" + strings.Join(es, ",") + "]"
}

func genC21Content(t *rapid.T) c21ContentCase {
	c := c21ContentCase{Vault: genVault(t, "v", &vaultOpts{minItems: 1, maxItems: 3, item: itemOpts{title: plainTitle, known: true, maxField: 2}})}
	c.Vault.Iter = 1
	c.Idx = intn(t, "idx", 0, len(c.Vault.Items)-1)
	text := func(name string) func(l string) (string, string) {
		return func(l string) (string, string) {
			if chance(t, l+".odd", 15) {
				return name, rapid.SampledFrom(c21Values).Draw(t, l+".oddv")
			}
			return name, jq(genLabel(t, l))
		}
	}
	scalar := func(name string) func(l string) (string, string) {
		return func(l string) (string, string) { return name, genScalar(t, l) }
	}
	kind := func(l string) (string, string) {
		if chance(t, l+".odd", 8) {
			return "k", rapid.SampledFrom(c21Values).Draw(t, l+".oddv")
		}
		return "k", jq(pick(t, l, "date", "monthYear", "address", "string", "concealed", "DATE", "MONTHYEAR", "Address", "menu", "", "file"))
	}
	c.Det = genObject(t, "d",
		func(l string) (string, string) {
			return "sections", genArray(t, l, 3, func(l string) string {
				return genObject(t, l, text("title"), text("name"), func(l string) (string, string) {
					return "fields", genArray(t, l, 4, func(l string) string { return genObject(t, l, kind, text("t"), text("n"), scalar("v")) })
				})
			})
		},
		func(l string) (string, string) {
			return "fields", genArray(t, l, 3, func(l string) string {
				return genObject(t, l, text("name"), scalar("value"), text("type"), text("designation"))
			})
		},
		scalar("notesPlain"))
	if chance(t, "hasover", 30) {
		c.Over = genObject(t, "o", text("title"), scalar("url"), scalar("ps"), scalar("tags"))
	}
	return c
}

func runC21Content(e *Env, c *c21ContentCase) (*Outcome, error) {
	s := Seal(&c.Vault)
	r := newDet(c.Vault.Seed, "content")
	if c.Over != "" {
		s.resealPlain(c.Idx, "overview", []byte(c.Over), r)
	}
	s.resealPlain(c.Idx, "details", []byte(c.Det), r)
	dir := filepath.Join(e.CaseDir(), "v")
	if err := s.Write(dir); err != nil {
		return nil, err
	}
	ss := newSession(e, dir)
	if err := ss.f.Validate(ss.vault); err != nil {
		return nil, violate("the vault is rejected: %v", err)
	}
	if err := ss.f.Unlock(ss.vault, rawPw(c.Vault.Password)); err != nil {
		return nil, violate("the right password is refused: %v", err)
	}
	o := &Outcome{Nontrivial: true}
	for i := range c.Vault.Items {
		it := &c.Vault.Items[i]
		g := ss.f.GetItem(it.UID, it.IsTrashed())
		if g == nil {
			return nil, violate("item %s is missing beside or in spite of odd content %s", it.UID, show(c.Det))
		}
		if g.Uid != it.UID || g.Category.GetCode() != it.Cat || g.Trashed != it.IsTrashed() || g.Created != it.Created || g.Updated != it.Updated {
			return nil, violate("item %s is changed by odd content: %+v", it.UID, g)
		}
		if i != c.Idx {
			if g.Title != it.TitleStr() || g.Notes != deref(it.Notes) {
				return nil, violate("item %s shows title %q and notes %q beside an item of odd content", it.UID, g.Title, show(g.Notes))
			}
		} else {
			var over map[string]any
			want := it.TitleStr()
			if c.Over != "" {
				json.Unmarshal([]byte(c.Over), &over)
				want, _ = over["title"].(string)
			}
			if g.Title != want {
				return nil, violate("item %s of overview %s shows title %q", it.UID, show(c.Over), g.Title)
			}
		}
	}
	n := 0
	for _, tr := range []bool{false, true} {
		n += len(ss.f.GetItems(nil, "", tr))
	}
	if n != len(c.Vault.Items) {
		return nil, violate("%d items are listed, %d are stored; odd content %s", n, len(c.Vault.Items), show(c.Det))
	}
	o.Sample = "details " + show(c.Det)
	return o, nil
}

func init() {
	register(&Property{
		ID:        "C21",
		Technique: "mutation fuzzing of the vault files (bytes, JSON structure, decrypted JSON) with a crash, hang, status and containment oracle",
		Rule: "A case is a generated vault of 1-3 items with one to three mutations of the profile, a band or the JSON inside the encryption (byte changes, cuts, insertions, members removed or replaced by values of every type, deep nesting, hostile whole contents, " +
			"unreadable, missing or replaced by directories), then one command with the right password; or (content) a vault with one item whose decrypted JSON is of generated, often wrong, shape, opened in process. Non-trivial: every executed case.",
		Assume: []string{"iteration counts over 200000 are not generated (a large count is worked off as given)", "encrypted JSON that is itself mutated is exempt from the comparison with the stored titles"},
		Subs: []*Sub{
			mk("cli", 12000, 120000, genC21, runC21),
			mk("content", 45000, 600000, genC21Content, runC21Content),
		},
	})
}
