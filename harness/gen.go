package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return rapid.SampledFrom(xs).Draw(t, label)
}

func chance(t *rapid.T, label string, percent int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-percent // shrinks towards false
}

func intn(t *rapid.T, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }

// alphabets for texts
const (
	alLower   = "abcdefghijklmnopqrstuvwxyz"
	alASCII   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_.,:;!?@#$^&*()[]{}<>/\\|'\"`~+=%"
	alLatin   = "aeiouàáâãäåæçèéêëìíîïñòóôõöøùúûüýÿßœłżźćńąęśÀÉÖŁŻ "
	alCyr     = "абвгдежзиклмнопрстуфхцчшщъыьэюяАБВГДЕЖЗИКЛМНОПРСТУФХЦЧШЩЫЭЮЯ "
	alGreek   = "αβγδεζηθικλμνξοπρστυφχψωΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ "
	alCJK     = "日本語中文字漢書簡体繁體字한국어カタカナひらがな"
	alEmoji   = "😀🔑🏦💳👩\u200d🚀é\u0301\u202e\u00a0\u2028\ufeff"
	alControl = "\t\n\r\x01\x1b\x7f\u0085 ab"
)

// stringOf draws a string of lo..hi runes of the alphabet.
func stringOf(t *rapid.T, label, alphabet string, lo, hi int) string {
	rs := []rune(alphabet)
	return string(rapid.SliceOfN(rapid.SampledFrom(rs), lo, hi).Draw(t, label))
}

// detString expands a drawn number to a long string without using up rapid's bit stream.
func detString(seed uint64, alphabet string, n int) string {
	rs := []rune(alphabet)
	b := newDet(seed, "str").bytes(2 * n)
	out := make([]rune, n)
	for i := range out {
		out[i] = rs[(int(b[2*i])<<8|int(b[2*i+1]))%len(rs)]
	}
	return string(out)
}

// textKinds of generated text.
//
//	line: no control characters; cli: no control characters but newline; any: everything valid in JSON
func genText(t *rapid.T, label string, multiline, control bool) string {
	k := intn(t, label+".kind", 0, 13)
	switch k {
	case 0:
		return stringOf(t, label, alLower, 1, 12)
	case 1:
		return stringOf(t, label, alASCII, 1, 40)
	case 2:
		return stringOf(t, label, alLatin, 1, 30)
	case 3:
		return stringOf(t, label, alCyr, 1, 30)
	case 4:
		return stringOf(t, label, alGreek, 1, 20)
	case 5:
		return stringOf(t, label, alCJK, 1, 20)
	case 6:
		return stringOf(t, label, alEmoji+alLower, 1, 20)
	case 7:
		return pick(t, label, "%d", "%s%s%n", "100%", "%!v(MISSING)", "a\\nb", "\\u0041", "\"quoted\"", "'", "<b>&amp;</b>", "</script>",
			"{\"a\":1}", "null", "true", "0", "-1", "1e9", "§", "  padded  ", "y", "~", "---", "....", "ld({});", "//", "$HOME", "`id`",
			"951782400", "202003", "2020-01-01", "1600000000", "19991231", "   ", " ", "12/2025", "{}", "[]", "false", "map[a:b]", "<nil>", "nil", "undefined", "NaN", "0x10", "1,000.50", "+1 555 0100", "**********", "Notes", "URL: x", "------------------------------")
	case 8: // lengths around multiples of the cipher block
		n := 16*intn(t, label+".blk", 0, 20) + intn(t, label+".off", -3, 3)
		if n < 1 {
			n = 1
		}
		return detString(uint64(intn(t, label+".seed", 0, 1<<30)), alLower+" ", n)
	case 9: // long
		n := intn(t, label+".len", 300, 6000)
		return detString(uint64(intn(t, label+".seed", 0, 1<<30)), alASCII+alCyr, n)
	case 10:
		if control {
			return stringOf(t, label, alControl, 1, 12)
		}
		return stringOf(t, label, alLower+" ", 1, 30)
	case 11:
		if multiline {
			ls := rapid.SliceOfN(rapid.StringMatching(`[a-zA-Z0-9 %:-]{0,20}`), 2, 6).Draw(t, label+".lines")
			return strings.Join(ls, "\n")
		}
		return stringOf(t, label, alASCII, 1, 60)
	case 12: // any rune that has a UTF-8 form
		r := rapid.SliceOfN(rapid.Rune(), 1, 12).Draw(t, label+".runes")
		var sb strings.Builder
		for _, x := range r {
			if !control && (x < 0x20 || x == 0x7f || (x >= 0x80 && x < 0xa0)) {
				x = 'x'
			}
			if x == 0xfffd {
				x = 'y'
			}
			sb.WriteRune(x)
		}
		return sb.String()
	default:
		return stringOf(t, label, alLower+"ABCDEF 0123456789", 1, 24)
	}
}

func genUID(t *rapid.T, label string, used map[string]bool) string {
	const hex = "0123456789ABCDEF"
	first := string(rapid.SampledFrom([]byte(hex)).Draw(t, label+".band"))
	n := uint64(intn(t, label+".n", 0, 1<<30))
	for {
		u := first + detString(n, hex, 31)
		if !used[u] {
			used[u] = true
			return u
		}
		n++
	}
}

func genTime(t *rapid.T, label string) int64 {
	switch intn(t, label+".k", 0, 5) {
	case 0:
		return pick[int64](t, label, 0, 1, 86399, 86400, 951782400, 1709164800, 1709251199, 2147483647, 2147483648, 4102444800)
	case 1:
		return rapid.Int64Range(-2000000000, 0).Draw(t, label)
	case 2:
		return rapid.Int64Range(0, 32503679999).Draw(t, label)
	default:
		return rapid.Int64Range(1000000000, 1800000000).Draw(t, label)
	}
}

type itemOpts struct {
	control  bool // control characters in texts
	known    bool // only known categories
	title    func(t *rapid.T, label string) *string
	value    func(t *rapid.T, label string) string // secret texts
	simple   bool                                  // no details
	noEmptyS bool                                  // no titled sections without fields
	label    func(t *rapid.T, label string) string
	maxField int
}

var kinds = []string{"string", "concealed", "URL", "email", "phone", "menu", "gender", "cctype", "reference", "date", "monthYear", "address",
	"date", "monthYear", "address", "string"}

var addrParts = []string{"street", "city", "zip", "state", "country", "region", "code"}

func genField(t *rapid.T, label string, o *itemOpts) FieldSpec {
	f := FieldSpec{Kind: rapid.SampledFrom(kinds).Draw(t, label+".kind"), Name: stringOf(t, label+".n", alLower, 1, 6)}
	if o.label != nil {
		f.Label = o.label(t, label+".t")
	} else if chance(t, label+".emptylabel", 4) {
		f.Label = ""
	} else {
		f.Label = genLabel(t, label+".t")
	}
	switch intn(t, label+".has", 0, 9) {
	case 0:
		return f // no value
	case 1:
		f.Null = true
		return f
	}
	switch f.Kind {
	case "date":
		n := genTime(t, label+".v")
		f.Num = &n
	case "monthYear":
		n := int64(intn(t, label+".y", 1000, 9999)*100 + intn(t, label+".m", 1, 12))
		f.Num = &n
	case "address":
		f.Addr = map[string]string{}
		for i, k := 0, intn(t, label+".parts", 1, len(addrParts)); i < k; i++ {
			p := addrParts[(i*3+intn(t, label+".rot", 0, 6))%len(addrParts)]
			var v string
			if o.value != nil {
				v = o.value(t, label+".addr")
			} else if chance(t, label+".emptyaddr", 15) {
				v = ""
			} else {
				v = genText(t, label+".addr", true, o.control)
			}
			f.Addr[p] = v
		}
	default:
		var v string
		if o.value != nil {
			v = o.value(t, label+".v")
		} else {
			v = genText(t, label+".v", true, o.control)
		}
		f.Str = &v
	}
	return f
}

// genLabel draws field and section labels: words of letters, digits and usual punctuation.
func genLabel(t *rapid.T, label string) string {
	switch intn(t, label+".k", 0, 4) {
	case 0:
		return pick(t, label, "password", "username", "bank name", "expiry date", "e-mail", "PIN", "first name", "SWIFT", "reg_email",
			"valid from", "api key", "website", "ccv2", "über", "straße", "ключ", "номер карты", "κλειδί", "密码", "100% sure", "a/b", "it's",
			"url", "McDonald", "iPhone", "1st place", "x.y", "don't", "_private", "%s label")
	case 1:
		return stringOf(t, label, alCyr, 1, 12)
	case 2:
		return stringOf(t, label, alLatin, 1, 12)
	default:
		return stringOf(t, label, alLower+alLower+"   -", 1, 16)
	}
}

func genSection(t *rapid.T, label string, o *itemOpts) SectionSpec {
	s := SectionSpec{Name: stringOf(t, label+".name", alLower, 0, 8)}
	switch intn(t, label+".title", 0, 4) {
	case 0:
	case 1:
		s.Title = sp("")
	default:
		if o.label != nil {
			s.Title = sp(o.label(t, label+".titletext"))
		} else {
			s.Title = sp(genLabel(t, label+".titletext"))
		}
	}
	if chance(t, label+".nofields", 8) && (!o.noEmptyS || deref(s.Title) == "") {
		s.NoFields = true
		return s
	}
	max := o.maxField
	if max == 0 {
		max = 4
	}
	n := intn(t, label+".nf", 0, max)
	if chance(t, label+".many", 4) && o.maxField == 0 {
		n += intn(t, label+".manyf", 5, 30)
	}
	for i := 0; i < n; i++ {
		s.Fields = append(s.Fields, genField(t, fmt.Sprintf("%s.f%d", label, i), o))
	}
	if o.noEmptyS && deref(s.Title) != "" {
		any := false
		for i := range s.Fields {
			any = any || s.Fields[i].hasValue()
		}
		if !any {
			v := "present"
			if o.value != nil {
				v = o.value(t, label+".fill")
			}
			s.Fields = append(s.Fields, FieldSpec{Kind: "string", Name: "x", Label: "filler", Str: &v})
		}
	}
	return s
}

func (f *FieldSpec) hasValue() bool {
	return !f.Null && (f.Str != nil || f.Num != nil || f.Addr != nil)
}

func genForm(t *rapid.T, label string, o *itemOpts) FormSpec {
	f := FormSpec{Type: pick(t, label+".type", "T", "P", "E", "C", "B", "I"), Designation: pick(t, label+".des", "", "username", "password")}
	if !chance(t, label+".noname", 10) {
		if chance(t, label+".emptyname", 10) {
			f.Name = sp("")
		} else if o.label != nil {
			f.Name = sp(o.label(t, label+".name"))
		} else {
			f.Name = sp(genLabel(t, label+".name"))
		}
	}
	if !chance(t, label+".noval", 10) {
		switch {
		case chance(t, label+".emptyval", 10):
			f.Value = sp("")
		case o.value != nil:
			f.Value = sp(o.value(t, label+".v"))
		default:
			f.Value = sp(genText(t, label+".v", true, o.control))
		}
	}
	return f
}

func genItem(t *rapid.T, label string, used map[string]bool, o *itemOpts) ItemSpec {
	it := ItemSpec{UID: genUID(t, label+".uid", used), Trashed: pick(t, label+".trashed", 0, 0, 1, 2, 2)}
	if !o.known && chance(t, label+".unk", 12) {
		it.Cat = pick(t, label+".cat", "006", "000", "112", "999", "1", "", "0010", "login", "098", "01")
	} else {
		it.Cat = rapid.SampledFrom(catCodes).Draw(t, label+".cat")
	}
	it.Created = genTime(t, label+".created")
	it.Updated = genTime(t, label+".updated")
	if o.title != nil {
		it.Title = o.title(t, label+".title")
	} else {
		switch intn(t, label+".hastitle", 0, 9) {
		case 0:
		case 1:
			it.Title = sp("")
		default:
			it.Title = sp(genText(t, label+".title", false, o.control))
		}
	}
	if chance(t, label+".hasurl", 60) {
		it.URL = sp(pick(t, label+".urlp", "", "http://", "https://") + genText(t, label+".url", false, o.control))
	}
	it.Extra = pick(t, label+".extra", 0, 0, 1, 2, 3, 4, 8, 16, 31)
	if o.simple {
		return it
	}
	if chance(t, label+".hasnotes", 50) {
		if o.value != nil {
			it.Notes = sp(o.value(t, label+".notes"))
		} else if chance(t, label+".emptynotes", 10) {
			it.Notes = sp("")
		} else {
			it.Notes = sp(genText(t, label+".notes", true, o.control))
		}
	}
	shape := intn(t, label+".shape", 0, 4)
	if shape == 1 || shape == 3 {
		it.HasForm = true
		n := intn(t, label+".nform", 0, 4)
		if chance(t, label+".manyform", 4) && o.maxField == 0 {
			n += intn(t, label+".manyforms", 5, 20)
		}
		for i := 0; i < n; i++ {
			it.Form = append(it.Form, genForm(t, fmt.Sprintf("%s.form%d", label, i), o))
		}
	}
	if shape == 2 || shape == 3 {
		it.HasSect = true
		n := intn(t, label+".nsect", 0, 4)
		if chance(t, label+".manysect", 4) && o.maxField == 0 {
			n += intn(t, label+".manysects", 3, 9)
		}
		for i := 0; i < n; i++ {
			it.Sections = append(it.Sections, genSection(t, fmt.Sprintf("%s.sect%d", label, i), o))
		}
	}
	return it
}

// genPassword draws master passwords; typed ones go through a terminal (no control characters, short).
func genPassword(t *rapid.T, label string, typed bool) string {
	switch intn(t, label+".k", 0, 8) {
	case 8:
		if !typed {
			return genRawBytes(t, label)
		}
		return stringOf(t, label, alASCII, 8, 24)
	case 0:
		return stringOf(t, label, alLower, 1, 10)
	case 1:
		return stringOf(t, label, alASCII, 1, 30)
	case 2:
		return stringOf(t, label, alLatin+alCyr+alCJK, 1, 20)
	case 3:
		n := intn(t, label+".n", 55, 140)
		return detString(uint64(intn(t, label+".s", 0, 1<<30)), alASCII, n)
	case 4:
		return " " + stringOf(t, label, alASCII, 0, 10) + pick(t, label+".tail", " ", "  ", "")
	case 5:
		return pick(t, label, "%s", "$(id)", "0", "true", "\"", "'", "\\", "\\n", "freddy", "pass word", "ÄÖÜ", "😀😀", "é", "é", "ﬁ", "İ", "ẞ")
	case 6:
		if typed {
			return stringOf(t, label, alASCII, 1, 60)
		}
		return pick(t, label, "", "\n", "a\nb", "tab\t", "\x7f", strings.Repeat("x", 128), strings.Repeat("x", 129), strings.Repeat("é", 64), strings.Repeat("z", 300))
	default:
		return stringOf(t, label, alLower+"ABCDEFGH0123456789", 4, 16)
	}
}

// rawPw turns the runes U+10FF80..U+10FFFF of a password (as replay files store it) into single bytes 80..FF.
func rawPw(s string) string {
	if !strings.ContainsFunc(s, func(r rune) bool { return r >= 0x10ff80 }) {
		return s
	}
	var b []byte
	for _, r := range s {
		if r >= 0x10ff80 {
			b = append(b, byte(r))
		} else {
			b = append(b, string(r)...)
		}
	}
	return string(b)
}

// genRawBytes draws text in a legacy 8-bit encoding: bytes that are no UTF-8.
func genRawBytes(t *rapid.T, label string) string {
	r := []rune(stringOf(t, label, alLower+"ABC 123", 0, 12))
	for i, n := 0, intn(t, label+".nraw", 1, 3); i < n; i++ {
		at := intn(t, label+".at", 0, len(r))
		r = append(r[:at:at], append([]rune{rune(0x10ff80 + intn(t, label+".byte", 0, 127))}, r[at:]...)...)
	}
	return string(r)
}

func genIter(t *rapid.T, label string) int {
	return pick(t, label, 1, 2, 3, 7, 10, 50, 100, 255, 256, 500, 1000)
}

type vaultOpts struct {
	minItems, maxItems int
	typed              bool
	item               itemOpts
}

func genVault(t *rapid.T, label string, o *vaultOpts) VaultSpec {
	v := VaultSpec{
		Password: genPassword(t, label+".pw", o.typed),
		Salt:     newDet(uint64(intn(t, label+".salt", 0, 1<<30)), "salt").bytes(pick(t, label+".saltn", 16, 16, 16, 1, 8, 32, 64, 65, 130, 200)),
		Iter:     genIter(t, label+".iter"),
		Seed:     uint64(intn(t, label+".seed", 0, 1<<30)),
		Escape:   intn(t, label+".esc", 0, 2),
		Pretty:   chance(t, label+".pretty", 15),
	}
	used := map[string]bool{}
	n := intn(t, label+".n", o.minItems, o.maxItems)
	for i := 0; i < n; i++ {
		v.Items = append(v.Items, genItem(t, fmt.Sprintf("%s.i%d", label, i), used, &o.item))
	}
	if n > 1 && o.item.title == nil && chance(t, label+".dup", 15) { // repeated texts
		i, j := intn(t, label+".dupi", 0, n-1), intn(t, label+".dupj", 0, n-1)
		v.Items[i].Title, v.Items[i].URL = v.Items[j].Title, v.Items[j].URL
		switch intn(t, label+".dupmore", 0, 5) {
		case 0, 1: // of the same kind, changed at the same time
			v.Items[i].Cat, v.Items[i].Trashed = v.Items[j].Cat, v.Items[j].Trashed
			v.Items[i].Created, v.Items[i].Updated = v.Items[j].Created, v.Items[j].Updated
		case 2: // a copy under another id
			uid := v.Items[i].UID
			v.Items[i] = v.Items[j]
			v.Items[i].UID = uid
		case 3:
			v.Items[i].Cat, v.Items[i].Notes, v.Items[i].Sections, v.Items[i].HasSect = v.Items[j].Cat, v.Items[j].Notes, v.Items[j].Sections, v.Items[j].HasSect
		}
	}
	if o.item.label == nil && o.item.value == nil {
		for i := range v.Items {
			dupParts(t, fmt.Sprintf("%s.i%d", label, i), &v.Items[i])
		}
	}
	if chance(t, label+".hint", 20) {
		v.Hint = sp(pick(t, label+".hinttext", "", ";", "};", "\"};var x={", "it's; mine", "ключ", "{", "}", "ld({});", strings.Repeat("long hint; ", 800), "\\", "salt", "\"salt\":\"x\""))
	}
	v.Outer = chance(t, label+".outer", 30)
	if chance(t, label+".hasfiles", 30) {
		v.Files = intn(t, label+".files", 1, 15)
	}
	if chance(t, label+".empty", 20) {
		v.Empty = stringOf(t, label+".emptyb", "0123456789ABCDEF", 1, 3)
	}
	return v
}

// dupParts repeats titles, labels and whole parts within an item.
func dupParts(t *rapid.T, label string, it *ItemSpec) {
	if n := len(it.Sections); n > 1 && chance(t, label+".dups", 20) {
		i, j := intn(t, label+".dupsi", 0, n-1), intn(t, label+".dupsj", 0, n-1)
		it.Sections[i].Title = it.Sections[j].Title
		if chance(t, label+".dupsn", 50) {
			it.Sections[i].Name = it.Sections[j].Name
		}
	}
	for k := range it.Sections {
		if f := it.Sections[k].Fields; len(f) > 1 && chance(t, label+".dupf", 15) {
			i, j := intn(t, label+".dupfi", 0, len(f)-1), intn(t, label+".dupfj", 0, len(f)-1)
			if chance(t, label+".dupfall", 50) {
				f[i] = f[j]
			} else {
				f[i].Label, f[i].Name = f[j].Label, f[j].Name
			}
		}
	}
	if n := len(it.Form); n > 1 && chance(t, label+".dupo", 20) {
		i, j := intn(t, label+".dupoi", 0, n-1), intn(t, label+".dupoj", 0, n-1)
		if chance(t, label+".dupoall", 50) {
			it.Form[i] = it.Form[j]
		} else {
			it.Form[i].Name = it.Form[j].Name
		}
	}
}

// genDirName draws the name of a vault directory.
func genDirName(t *rapid.T, label string) string {
	switch intn(t, label+".k", 0, 5) {
	case 0:
		return "onepassword_data"
	case 1:
		return "1Password.opvault"
	case 2:
		return pick(t, label, "my vault", " lead", "trail ", "-v", "--help", "a[b]", "x*", "q?", "back\\slash", "[a-z]", "{a,b}", "quo'te", "dq\"x", "%s", "$HOME", "ünïcödé",
			"日本", "a,b;c&d", "(paren)", "#hash", "~tilde", "!bang", "new\nline", "tab\tx", "..hidden", ".opvault", "default", "band_0.js", "[", "[]a]", "\\", "*", "a[")
	case 3:
		return stringOf(t, label, alASCII[:62]+" -_.,[]*?\\{}()%'", 1, 20)
	case 4:
		return stringOf(t, label, alCyr+alCJK+"😀", 1, 12)
	default:
		return stringOf(t, label, alLower, 1, 30)
	}
}

func cleanDirName(s string) string {
	s = strings.ReplaceAll(s, "/", "_")
	if s == "" || s == "." || s == ".." {
		s = "v" + s
	}
	return s
}
