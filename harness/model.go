package main

// The reference model: what the stored items must look like to the user.

import (
	"fmt"
	"sort"
	"strings"
	"time"
	"unicode"
)

type vField struct{ Name, Value string }
type vSection struct {
	Title  string
	Fields []vField
}

func titleCase(s string) string {
	// every letter that starts a word becomes its title-case form; words are runs of letters, digits and
	// underscores (non-ASCII: anything but white space)
	prev := ' '
	sep := func(r rune) bool {
		if r <= 0x7f {
			return !(('0' <= r && r <= '9') || ('a' <= r && r <= 'z') || ('A' <= r && r <= 'Z') || r == '_')
		}
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			return false
		}
		return unicode.IsSpace(r)
	}
	return strings.Map(func(r rune) rune {
		if sep(prev) {
			prev = r
			return unicode.ToTitle(r)
		}
		prev = r
		return r
	}, s)
}

func civil(ts int64, loc *time.Location) string { return time.Unix(ts, 0).In(loc).Format("2006-01-02") }
func stamp(ts int64, loc *time.Location) string {
	return time.Unix(ts, 0).In(loc).Format("2006-01-02 15:04:05")
}

func (f *FieldSpec) render(loc *time.Location) string {
	switch f.Kind {
	case "date":
		return civil(*f.Num, loc)
	case "monthYear":
		return fmt.Sprintf("%04d-%02d", *f.Num/100, *f.Num%100)
	case "address":
		var ks []string
		for k := range f.Addr {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var out []string
		for _, k := range ks {
			out = append(out, k+": "+strings.ReplaceAll(strings.TrimSpace(f.Addr[k]), "\n", " "))
		}
		return strings.Join(out, "\n")
	}
	return *f.Str
}

// normAddr normalises the layout of a multi-line address value.
func normAddr(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimRight(strings.TrimLeft(l, " \t"), " \t")
		if l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// sections returns the displayed sections; those without any field are left out.
func (it *ItemSpec) sections(loc *time.Location) []vSection {
	var out []vSection
	var form []vField
	for _, f := range it.Form {
		if deref(f.Name) != "" && deref(f.Value) != "" {
			form = append(form, vField{titleCase(*f.Name), *f.Value})
		}
	}
	if len(form) > 0 {
		out = append(out, vSection{"", form})
	}
	for _, s := range it.Sections {
		var fs []vField
		for i := range s.Fields {
			f := &s.Fields[i]
			if f.hasValue() {
				fs = append(fs, vField{titleCase(f.Label), f.render(loc)})
			}
		}
		if len(fs) > 0 {
			out = append(out, vSection{titleCase(deref(s.Title)), fs})
		}
	}
	return out
}

// isAddr reports which displayed fields are addresses, in the order of sections().
func (it *ItemSpec) addrFlags() [][]bool {
	var out [][]bool
	var form []bool
	for _, f := range it.Form {
		if deref(f.Name) != "" && deref(f.Value) != "" {
			form = append(form, false)
		}
	}
	if len(form) > 0 {
		out = append(out, form)
	}
	for _, s := range it.Sections {
		var fs []bool
		for i := range s.Fields {
			if s.Fields[i].hasValue() {
				fs = append(fs, s.Fields[i].Kind == "address")
			}
		}
		if len(fs) > 0 {
			out = append(out, fs)
		}
	}
	return out
}

func (it *ItemSpec) known() bool { return Cats[it.Cat] != "" }

func (v *VaultSpec) knownItems() []*ItemSpec {
	var out []*ItemSpec
	for i := range v.Items {
		if v.Items[i].known() {
			out = append(out, &v.Items[i])
		}
	}
	return out
}

// simpleLower maps letters to lower case one by one.
func simpleLower(s string) string {
	return strings.Map(func(r rune) rune { return unicode.ToLower(r) }, s)
}

// query is the reference for searching.
func (v *VaultSpec) query(cat, title string, trashed bool) []*ItemSpec {
	var out []*ItemSpec
	for _, it := range v.knownItems() {
		if it.IsTrashed() != trashed || (cat != "" && it.Cat != cat) {
			continue
		}
		if title != "" && !strings.Contains(simpleLower(it.TitleStr()), simpleLower(title)) {
			continue
		}
		out = append(out, it)
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].Cat != out[j].Cat {
			return out[i].Cat < out[j].Cat
		}
		if out[i].TitleStr() != out[j].TitleStr() {
			return out[i].TitleStr() < out[j].TitleStr()
		}
		return out[i].UID < out[j].UID
	})
	return out
}

// textLine is a line of expected command output; optional ones may be missing.
type textLine struct {
	text     string
	optional bool
}

// itemLines returns the lines of the overview or details output, without blank lines and rulers.
func (it *ItemSpec) itemLines(details bool, loc *time.Location) []textLine {
	var out []textLine
	add := func(s string) {
		for _, l := range strings.Split(s, "\n") {
			out = append(out, textLine{l, false})
		}
	}
	add(Cats[it.Cat])
	add(it.TitleStr())
	add("Updated: " + stamp(it.Updated, loc))
	add("Created: " + stamp(it.Created, loc))
	add(fmt.Sprintf("Trashed: %v", it.IsTrashed()))
	if deref(it.URL) != "" {
		add("URL: " + *it.URL)
	}
	field := func(name, value string, addr bool) {
		if !details {
			add(name + ": **********")
			return
		}
		if addr {
			add(name + ":")
			for _, l := range strings.Split(value, "\n") {
				add(l)
			}
			return
		}
		add(name + ": " + value)
	}
	for _, f := range it.Form {
		if deref(f.Name) != "" && deref(f.Value) != "" {
			field(titleCase(*f.Name), *f.Value, false)
		}
	}
	for _, s := range it.Sections {
		any := false
		for i := range s.Fields {
			any = any || s.Fields[i].hasValue()
		}
		if deref(s.Title) != "" {
			out = append(out, textLine{titleCase(*s.Title), !any})
		}
		for i := range s.Fields {
			f := &s.Fields[i]
			if f.hasValue() {
				field(titleCase(f.Label), f.render(loc), f.Kind == "address")
			}
		}
	}
	if deref(it.Notes) != "" {
		add("Notes")
		if details {
			add(*it.Notes)
		} else {
			add("**********")
		}
	}
	return out
}

func ruler(s string) bool { return len(s) >= 10 && strings.Trim(s, "-") == "" }

// matchLines compares produced text with expected lines; blank lines, rulers and the indentation and
// trailing blanks of a line do not matter.
func matchLines(got string, want []textLine) error {
	norm := func(s string) string { return strings.Trim(s, " \t\r") }
	var g []string
	for _, l := range strings.Split(got, "\n") {
		l = norm(l)
		if l != "" && !ruler(l) {
			g = append(g, l)
		}
	}
	i := 0
	for _, w := range want {
		t := norm(w.text)
		if t == "" || ruler(t) {
			continue
		}
		if i < len(g) && g[i] == t {
			i++
			continue
		}
		if w.optional {
			continue
		}
		if i >= len(g) {
			return fmt.Errorf("line %q is missing at the end", t)
		}
		return fmt.Errorf("expected line %q, got %q", t, g[i])
	}
	if i < len(g) {
		return fmt.Errorf("unexpected line %q", g[i])
	}
	return nil
}
