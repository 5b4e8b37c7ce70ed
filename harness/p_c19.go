package main

// C06 (screen part), C19 and C20: sessions with the GUI against a model of what the screen has to show.

import (
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"
)

type guiOp struct {
	Op    string     `json:"op"`
	Pw    string     `json:"pw,omitempty"`
	N     int        `json:"n,omitempty"`
	Key   int        `json:"key,omitempty"`
	Items []ItemSpec `json:"items,omitempty"`
	Fast  bool       `json:"fast,omitempty"`  // the next operation follows at once
	Sizes [][2]int   `json:"sizes,omitempty"` // terminal sizes taken one after the other: columns, rows
}

type guiCase struct {
	Vault VaultSpec `json:"vault"`
	Cols  int       `json:"cols"`
	Rows  int       `json:"rows"`
	Ops   []guiOp   `json:"ops"`
}

// a text an item shows in the GUI's item pane, line by line
func (it *ItemSpec) guiLines(details bool, loc *time.Location) []string {
	rule := strings.Repeat("-", 30)
	out := append(append([]string{Cats[it.Cat], rule}, strings.Split(it.TitleStr(), "\n")...), "", "Updated: "+stamp(it.Updated, loc), "Created: "+stamp(it.Created, loc), fmt.Sprintf("Trashed: %v", it.IsTrashed()))
	add := func(s string) { out = append(out, strings.Split(s, "\n")...) }
	if deref(it.URL) != "" {
		out = append(out, "URL: "+*it.URL)
	}
	secs, addr := it.sections(loc), it.addrFlags()
	for i, s := range secs {
		out = append(out, "")
		if s.Title != "" {
			out = append(out, s.Title)
		}
		out = append(out, rule)
		for k, f := range s.Fields {
			switch {
			case !details:
				out = append(out, f.Name+": **********")
			case addr[i][k]:
				out = append(out, f.Name+": ")
				for _, l := range strings.Split(f.Value, "\n") {
					out = append(out, "  "+l)
				}
			default:
				add(f.Name + ": " + f.Value)
			}
		}
	}
	if len(secs) > 0 {
		out = append(out, "")
	}
	if deref(it.Notes) != "" {
		if len(secs) == 0 {
			out = append(out, "")
		}
		out = append(out, "Notes", rule)
		if details {
			add(*it.Notes)
		} else {
			out = append(out, "**********")
		}
	}
	for i := range out {
		out[i] = strings.ReplaceAll(out[i], "\r", "")
	}
	return out
}

type menuEntry struct {
	text  string
	items []*ItemSpec
}

// menu is the list of entries the main screen has to show.
func (v *VaultSpec) menu() []menuEntry {
	var out []menuEntry
	if all := v.query("", "", false); len(all) > 0 {
		out = append(out, menuEntry{fmt.Sprintf("All (%d)", len(all)), all})
		for _, code := range catCodes {
			if l := v.query(code, "", false); len(l) > 0 {
				out = append(out, menuEntry{fmt.Sprintf("%s (%d)", Cats[code], len(l)), l})
			}
		}
	}
	if tr := v.query("", "", true); len(tr) > 0 {
		out = append(out, menuEntry{fmt.Sprintf("Trashed (%d)", len(tr)), tr})
	}
	return out
}

const (
	gPrompt  = "prompt"
	gError   = "error"
	gMain    = "main"
	gItems   = "items"
	gDetails = "details"
)

type guiSess struct {
	g      *guiRun
	cols   int
	rows   int
	dir    string
	cur    *VaultSpec
	first  *VaultSpec
	limit  time.Duration
	mode   string
	menu   []menuEntry
	mi     int // selected menu entry
	ii     int // selected item
	ox, oy int
	seat   map[int][]*ItemSpec // what rows of the opened list may stand for, where titles do not tell
	seen   []*ItemSpec         // what the selected row may stand for after the screen just looked at
	fast   bool                // keys are sent without waiting for the screen
	plain  bool                // no escape sequences: termbox takes one apart that is split between two reads
	// what is judged
	faithful, locking, secrecy bool
	labels                     map[string]bool
	keys                       int
	revealed                   int
	relocked                   int
	mark                       int // start of the output since values had to be covered
	maxed                      bool
}

func (s *guiSess) inner() (x0, y0, x1, y1 int) { return 1, 4, s.cols - 1, s.rows - 4 }
func (s *guiSess) itemsBox() (x0, y0, x1, y1 int) {
	return 2, 5, int(0.5 * float32(s.cols-2)), s.rows - 5
}
func (s *guiSess) detailsBox() (x0, y0, x1, y1 int) {
	return int(0.5*float32(s.cols-2)+1) + 1, 5, s.cols - 2, s.rows - 5
}

func clip(l string, from, width int) string {
	r := []rune(l)
	if from >= len(r) {
		return ""
	}
	r = r[from:]
	if len(r) > width {
		r = r[:width]
	}
	return strings.TrimRight(string(r), " ")
}

// listed checks a list with a highlighted entry: the visible rows are a gapless part of it that contains
// the selected entry, which alone is highlighted.
func listed(s *screen, x0, y0, x1, y1 int, centred bool, want []string, sel int, what string) error {
	h := y1 - y0
	var got []string
	hl := -1
	for y := y0; y < y1; y++ {
		l := strings.TrimRight(s.text(y, x0, x1), " ")
		if centred {
			l = strings.TrimSpace(l)
		}
		got = append(got, l)
		for x := x0; x < x1; x++ {
			if s.bg(x, y) == 4 && s.cells[y*s.w+x].r != ' ' {
				if hl >= 0 && hl != y-y0 {
					return fmt.Errorf("%s: rows %q and %q are both highlighted", what, got[hl], l)
				}
				hl = y - y0
			}
		}
	}
	for len(got) > 0 && got[len(got)-1] == "" {
		got = got[:len(got)-1]
	}
	var w []string
	for _, l := range want {
		w = append(w, clip(l, 0, x1-x0))
	}
	if len(w) == 0 {
		if len(got) > 0 {
			return fmt.Errorf("%s shows %q, nothing is expected", what, got)
		}
		return nil
	}
	if hl < 0 || hl >= len(got) {
		return fmt.Errorf("%s: no row is highlighted, expected %q; rows %q", what, w[sel], got)
	}
	// the highlighted row is the selected one, so the part starts at sel-hl
	from := sel - hl
	if from < 0 || from+len(got) > len(w) {
		return fmt.Errorf("%s: row %d is highlighted, which cannot be entry %d of %d; rows %q, expected %q", what, hl, sel, len(w), got, w)
	}
	for i := range got {
		if got[i] != w[from+i] {
			return fmt.Errorf("%s: row %d is %q, expected %q (entry %d); rows %q, expected %q", what, i, got[i], w[from+i], from+i, got, w)
		}
	}
	if len(got) < h && len(got) < len(w) && (from > 0 || from+len(got) < len(w)) {
		return fmt.Errorf("%s: only %d of %d entries are shown although there is room: %q", what, len(got), len(w), got)
	}
	return nil
}

func (s *guiSess) checkMain(sc *screen) error {
	var w []string
	for _, m := range s.menu {
		w = append(w, m.text)
	}
	x0, y0, x1, y1 := s.inner()
	return listed(sc, x0, y0, x1, y1, true, w, s.mi, "the menu")
}

func (s *guiSess) items() []*ItemSpec { return s.menu[s.mi].items }

func (s *guiSess) checkItems(sc *screen) error {
	var w []string
	for _, it := range s.items() {
		t := strings.ReplaceAll(strings.ReplaceAll(it.TitleStr(), "\r", ""), "\n", " ")
		if t == "" {
			t = "<NO TITLE>"
		}
		w = append(w, t)
	}
	x0, y0, x1, y1 := s.itemsBox()
	return listed(sc, x0, y0, x1, y1, false, w, s.ii, "the item list of "+s.menu[s.mi].text)
}

// candidates are the stored items the selected row may stand for.
func (s *guiSess) candidates() []*ItemSpec {
	if l := s.seat[s.ii]; len(l) > 0 {
		return l
	}
	l := s.items()
	var out []*ItemSpec
	for i, it := range l {
		if it.Cat == l[s.ii].Cat && it.TitleStr() == l[s.ii].TitleStr() {
			taken := false
			for _, o := range s.seat {
				taken = taken || len(o) == 1 && o[0] == l[i]
			}
			if !taken {
				out = append(out, it)
			}
		}
	}
	return out
}

func (s *guiSess) pane(sc *screen, it *ItemSpec, details bool) error {
	want := it.guiLines(details, time.UTC)
	x0, y0, x1, y1 := s.detailsBox()
	for y := y0; y < y1; y++ {
		w := ""
		if k := s.oy + y - y0; k < len(want) {
			w = clip(want[k], s.ox, x1-x0)
		}
		if got := strings.TrimRight(sc.text(y, x0, x1), " "); got != w {
			return fmt.Errorf("the item pane shows %q in row %d, expected %q (item %s %q, details %v, scrolled by %d/%d)", got, y-y0, w, it.UID, it.TitleStr(), details, s.ox, s.oy)
		}
	}
	return nil
}

func (s *guiSess) checkPane(sc *screen, details bool) error {
	var first error
	s.seen = nil
	for _, it := range s.candidates() {
		err := s.pane(sc, it, details)
		if err == nil {
			s.seen = append(s.seen, it)
		} else if first == nil {
			first = err
		}
	}
	if len(s.seen) > 0 {
		return nil
	}
	if first == nil {
		return fmt.Errorf("row %d of the item list repeats an item shown in another row", s.ii)
	}
	return first
}

// vaultContent returns a text of the vault that is on the screen.
func (s *guiSess) vaultContent(sc *screen) string {
	all := sc.all()
	if r := secretChar(all); r != 0 {
		return fmt.Sprintf("%q of a field value or note", r)
	}
	for _, l := range strings.Split(all, "\n") {
		for _, m := range []string{"All (", "Trashed (", "Trashed: ", "Updated: ", "Created: "} {
			if strings.Contains(l, m) {
				return fmt.Sprintf("%q", strings.TrimSpace(l))
			}
		}
		for _, c := range Cats {
			if strings.Contains(l, c+" (") {
				return fmt.Sprintf("%q", strings.TrimSpace(l))
			}
		}
	}
	for _, v := range []*VaultSpec{s.cur, s.first} {
		for i := range v.Items {
			if t := v.Items[i].TitleStr(); len(t) >= 4 && strings.Contains(all, t) {
				return fmt.Sprintf("the title %q", t)
			}
			if u := deref(v.Items[i].URL); len(u) >= 10 && strings.Contains(all, u) {
				return fmt.Sprintf("the URL %q", u)
			}
		}
	}
	return ""
}

// box finds a framed dialog with that title.
func dialog(sc *screen, title string) bool {
	for y := 3; y < sc.h-3; y++ {
		r := sc.row(y)
		if i := strings.Index(r, title); i >= 0 && strings.Contains(r[:i], "┌") || strings.Contains(r, "+-"+title) {
			return true
		}
	}
	return false
}

func (s *guiSess) checkLocked(sc *screen) error {
	if c := s.vaultContent(sc); c != "" {
		return fmt.Errorf("the vault is locked and the screen shows %s", c)
	}
	if s.mode == gPrompt && !dialog(sc, "Password") {
		return fmt.Errorf("the vault is locked and the password is not asked for")
	}
	if s.mode == gError {
		if !dialog(sc, "Error") || strings.Count(sc.all(), "invalid password") != 1 {
			return fmt.Errorf("no error is shown (once) after a wrong password")
		}
	}
	return nil
}

// checkHelp compares the help line with the screen, where it is wide enough for all of it.
func (s *guiSess) checkHelp(sc *screen) error {
	if s.cols < 110 {
		return nil
	}
	l := sc.row(s.rows - 2)
	for m, keys := range map[string][]string{gMain: {"Open: ENTER"}, gItems: {"Go back: Q", "Reveal item: TAB"}, gDetails: {"Scroll left/right: h/l", "Cover item: TAB"}} {
		for _, k := range keys {
			if s.mode != gPrompt && s.mode != gError && strings.Contains(l, k) != (m == s.mode) {
				return fmt.Errorf("the help line does not fit the screen: %q", strings.TrimSpace(l))
			}
		}
	}
	return nil
}

// covered demands that no value is visible and none was printed since the last one had to go.
func (s *guiSess) covered(sc *screen) error {
	all := sc.all()
	if r := secretChar(all); r != 0 {
		return fmt.Errorf("%q of a field value or note is on the screen without being revealed", r)
	}
	if m := dateSecret.FindString(all); m != "" {
		return fmt.Errorf("the date value %q is on the screen without being revealed", m)
	}
	return nil
}

// expect waits until the screen is as the model says.
func (s *guiSess) expect() error {
	if s.fast {
		s.seen = nil
		return nil
	}
	var last error
	check := func(hard bool) func(sc *screen) bool {
		return func(sc *screen) bool {
			last = nil
			s.seen = nil
			set := func(on bool, err error) {
				if err != nil && last == nil && (on || !hard) {
					last = err
				}
			}
			switch s.mode {
			case gPrompt:
				set(s.locking || s.secrecy, s.checkLocked(sc))
			case gError:
				set(s.locking || s.secrecy, s.checkLocked(sc))
			case gMain:
				set(s.faithful, s.checkMain(sc))
				set(s.secrecy, s.covered(sc))
			case gItems:
				set(s.faithful, s.checkItems(sc))
				if len(s.items()) > 0 {
					set(s.faithful, s.checkPane(sc, false))
				}
				set(s.secrecy, s.covered(sc))
			case gDetails:
				set(s.faithful, s.checkItems(sc))
				set(s.faithful, s.checkPane(sc, true))
			}
			set(s.faithful, s.checkHelp(sc))
			if s.mode != gDetails && s.secrecy {
				if r := passChar(sc.all()); r != 0 && last == nil {
					last = fmt.Errorf("%q of the typed password is on the screen", r)
				}
			}
			if last == nil && len(s.seen) > 0 {
				s.seat[s.ii] = s.seen
			}
			return last == nil
		}
	}
	// wait for everything the model says; what is not judged only synchronises
	lim := s.limit
	if !(s.faithful && s.locking) {
		lim = min(lim, 1500*time.Millisecond)
	}
	if s.g.waitFor(check(false), lim) {
		return nil
	}
	if s.g.dead() {
		return violate("the GUI ended (%s); expected: %s", s.g.describe(), s.mode)
	}
	if s.g.waitFor(check(true), s.limit-lim) {
		return nil
	}
	return violate("%s screen: %v\n%s", s.mode, last, s.g.describe())
}

var guiKeys = map[string][]string{
	"down": {"j", "\x1bOB"}, "up": {"k", "\x1bOA"}, "open": {"\r", "l", "\x1bOC"}, "back": {"q", "h", "\x1bOD"}, "right": {"l", "\x1bOC"}, "left": {"h", "\x1bOD"},
	"tab": {"\t"}, "lock": {"\x0c"}, "enter": {"\r"},
}

func (s *guiSess) key(name string, variant int) {
	k := guiKeys[name]
	if s.plain {
		for len(k) > 1 && k[variant%len(k)][0] == 0x1b {
			variant++
		}
	}
	s.g.send(k[variant%len(k)])
	s.keys++
}

func (s *guiSess) enterMain() {
	s.mode, s.mi, s.menu = gMain, 0, s.cur.menu()
}

func (s *guiSess) lockNow(key int) {
	s.key("lock", key)
	s.labels["locked from "+s.mode] = true
	s.mode = gPrompt
	s.relocked++
}

// width of the longest line and number of lines of the pane
func (s *guiSess) paneSize() (w, h int) {
	for k, it := range s.seat[s.ii] {
		l := it.guiLines(true, time.UTC)
		iw := 0
		for _, x := range l {
			iw = max(iw, len([]rune(x)))
		}
		if k == 0 || iw < w {
			w = iw
		}
		if k == 0 || len(l) < h {
			h = len(l)
		}
	}
	return w, h
}

// waitStars waits until that many characters are covered in the password prompt.
func (s *guiSess) waitStars(n int) {
	n = min(n, 57)
	s.g.waitFor(func(sc *screen) bool { return n == 57 || strings.Count(sc.all(), "*") == n }, s.limit)
	s.g.settle(5 * time.Millisecond)
}

func (s *guiSess) step(op *guiOp) error {
	n := max(1, op.N)
	switch op.Op {
	case "unlock", "wrong":
		if s.mode == gError {
			s.key("enter", 0)
			s.mode = gPrompt
			if err := s.expect(); err != nil {
				return err
			}
		}
		if s.mode != gPrompt {
			return nil
		}
		pw := s.cur.Password
		if op.Op == "wrong" {
			pw = op.Pw
		}
		if r := []rune(pw); op.Key%3 == 1 && len(r) > 0 {
			// with a corrected mistake
			k := op.N % len(r) % 50
			s.g.send(string(r[:k]) + "zz")
			s.waitStars(k + 2) // as a person would: the editor needs a drawn text to delete from
			s.g.send("\x7f")
			s.waitStars(k + 1)
			s.g.send("\x7f")
			s.waitStars(k)
			s.g.send(string(r[k:]))
			s.labels["password typed with a correction"] = true
		} else if len(op.Sizes) > 0 && len(r) > 1 {
			// the terminal is resized halfway
			k := 1 + op.N%(len(r)-1)
			s.g.send(string(r[:k]))
			s.waitStars(k)
			if err := s.resize(op.Sizes); err != nil {
				return err
			}
			s.waitStars(k)
			s.g.send(string(r[k:]))
			s.labels["resized while typing the password"] = true
		} else {
			s.g.send(pw)
		}
		if s.secrecy {
			// the typed text stays covered
			stars := func(sc *screen) bool { return pw == "" || strings.Contains(sc.all(), "*") }
			s.g.waitFor(stars, s.limit)
			sc := s.g.snap()
			if r := passChar(sc.all()); r != 0 {
				return violate("%q of the typed password is on the screen\n%s", r, sc.all())
			}
		}
		s.key("enter", 0)
		if op.Op == "wrong" {
			s.mode = gError
			s.labels["wrong password"] = true
		} else {
			s.enterMain()
		}
	case "ack":
		if s.mode != gError {
			return nil
		}
		s.key("enter", 0)
		s.mode = gPrompt
	case "down", "up":
		for i := 0; i < n; i++ {
			switch s.mode {
			case gMain:
				s.key(op.Op, op.Key)
				if op.Op == "down" && s.mi < len(s.menu)-1 {
					s.mi++
				}
				if op.Op == "up" && s.mi > 0 {
					s.mi--
				}
			case gItems:
				s.key(op.Op, op.Key)
				if op.Op == "down" && s.ii < len(s.items())-1 {
					s.ii++
				}
				if op.Op == "up" && s.ii > 0 {
					s.ii--
				}
			case gDetails:
				_, h := s.paneSize()
				_, y0, _, y1 := s.detailsBox()
				if op.Op == "down" && s.oy < h-(y1-y0) {
					s.key("down", op.Key)
					s.oy++
					s.labels["scrolled"] = true
				}
				if op.Op == "up" && s.oy > 0 {
					s.key("up", op.Key)
					s.oy--
				}
			default:
				return nil
			}
			if i < n-1 && s.mode == gItems {
				if err := s.expect(); err != nil {
					return err
				}
			}
		}
	case "right", "left":
		if s.mode != gDetails {
			return nil
		}
		for i := 0; i < n; i++ {
			w, _ := s.paneSize()
			x0, _, x1, _ := s.detailsBox()
			if op.Op == "right" && s.ox < w-(x1-x0) {
				s.key("right", op.Key)
				s.ox++
				s.labels["scrolled"] = true
			}
			if op.Op == "left" && s.ox > 0 {
				s.key("left", op.Key)
				s.ox--
			}
		}
	case "open":
		if s.mode != gMain {
			return nil
		}
		s.key("open", op.Key)
		if len(s.menu) > 0 {
			s.mode, s.ii, s.ox, s.oy, s.seat = gItems, 0, 0, 0, map[int][]*ItemSpec{}
			s.labels["opened a list"] = true
		}
	case "back":
		if s.mode != gItems {
			return nil
		}
		s.key("back", op.Key)
		s.mode = gMain
	case "tab":
		switch s.mode {
		case gItems:
			if len(s.items()) == 0 {
				return nil
			}
			s.key("tab", 0)
			s.mode = gDetails
			s.ox, s.oy = 0, 0
			s.revealed++
		case gDetails:
			s.key("tab", 0)
			if s.ox > 0 && s.oy > 0 {
				s.labels["covered while scrolled both ways"] = true
			}
			s.mode = gItems
			s.ox, s.oy = 0, 0
		default:
			return nil
		}
	case "lock":
		if s.mode == gPrompt || s.mode == gError {
			return nil
		}
		s.lockNow(op.Key)
	case "junk":
		if s.mode == gPrompt {
			return nil
		}
		junk := []string{"z", "x", "7", "Q", " ", "\x1b[Z"}
		if s.plain {
			junk = junk[:5]
		}
		s.g.send(junk[op.Key%len(junk)])
		s.keys++
	case "resize":
		return s.resize(op.Sizes)
	case "tour":
		return s.tour(op)
	case "disk":
		if s.mode != gPrompt && s.mode != gError {
			return nil
		}
		next := *s.cur
		next.Items = op.Items
		s.cur = &next
		if op.Pw != "" {
			// with another password and other keys
			next = rekeyed(next, op.Pw, op.N)
			if err := Seal(&next).rewrite(s.dir); err != nil {
				return err
			}
			s.labels["password and keys changed while locked"] = true
			return nil
		}
		if err := Seal(s.cur).WriteBands(s.dir); err != nil {
			return err
		}
		s.labels["changed on disk while locked"] = true
		return nil
	default:
		return fmt.Errorf("unknown op %q", op.Op)
	}
	return s.expect()
}

// tour opens every entry and looks at every item.
func (s *guiSess) tour(op *guiOp) error {
	if s.mode != gMain {
		return nil
	}
	s.labels["complete tour"] = true
	do := func(o string, n int) error { return s.step(&guiOp{Op: o, N: n, Key: op.Key}) }
	if err := do("up", len(s.menu)+1); err != nil {
		return err
	}
	for m := range s.menu {
		if m > 0 {
			if err := do("down", 1); err != nil {
				return err
			}
		}
		if err := do("open", 1); err != nil {
			return err
		}
		for i := range s.items() {
			if i > 0 {
				if err := do("down", 1); err != nil {
					return err
				}
			}
			if (m+i)%2 == op.N%2 {
				if err := do("tab", 1); err != nil {
					return err
				}
				if err := do("tab", 1); err != nil {
					return err
				}
			}
		}
		if err := do("back", 1); err != nil {
			return err
		}
	}
	return nil
}

func (e *Env) playGUI(c *guiCase, faithful, locking, secrecy bool, limit time.Duration) (*guiSess, error) {
	return e.playGUIWith(c, faithful, locking, secrecy, limit, nil, nil)
}

// playGUIWith plays a session in an environment that setup may change; atEnd looks at it before the GUI is closed.
func (e *Env) playGUIWith(c *guiCase, faithful, locking, secrecy bool, limit time.Duration, setup func(o *guiOpts), atEnd func(s *guiSess) error) (*guiSess, error) {
	dir := filepath.Join(e.CaseDir(), fmt.Sprintf("v%d", limit))
	if err := Seal(&c.Vault).Write(dir); err != nil {
		return nil, err
	}
	home, err := e.quietHome("")
	if err != nil {
		return nil, err
	}
	opts := &guiOpts{Args: []string{"-v", dir}, Home: home, Cols: c.Cols, Rows: c.Rows}
	if setup != nil {
		setup(opts)
	}
	g, err := e.startGUI(opts)
	if err != nil {
		return nil, err
	}
	defer g.close()
	s := &guiSess{g: g, cols: c.Cols, rows: c.Rows, dir: dir, cur: &c.Vault, first: &c.Vault, limit: limit, mode: gPrompt,
		faithful: faithful, locking: locking, secrecy: secrecy, labels: map[string]bool{}}
	if roomy([2]int{c.Cols, c.Rows}) {
		if err := s.expect(); err != nil {
			return s, err
		}
	}
	disk := -1 // keys sent in a burst may still be at work when the files change
	for i := range c.Ops {
		if c.Ops[i].Op == "disk" {
			disk = i
		}
	}
	for i := range c.Ops {
		fast := c.Ops[i].Fast && i < len(c.Ops)-1 && i > disk
		if fast {
			s.labels["keys in bursts"] = true
		}
		s.fast, s.plain = fast, fast || i > 0 && c.Ops[i-1].Fast
		err := s.step(&c.Ops[i])
		if s.fast = false; err == nil && !fast && i > 0 && c.Ops[i-1].Fast {
			err = s.expect() // where the last one did nothing
		}
		if err != nil {
			if v, ok := err.(*Violation); ok {
				return s, violate("operation %d (%s): %s", i, c.Ops[i].Op, v.Msg)
			}
			return s, err
		}
	}
	// what was shown stays
	g.settle(20 * time.Millisecond)
	if err := s.expect(); err != nil {
		return s, err
	}
	if secrecy {
		raw := g.raw()
		if r := passChar(raw); r != 0 {
			return s, violate("%q of the typed password was printed", r)
		}
		if s.revealed == 0 {
			if r := secretChar(raw); r != 0 {
				return s, violate("%q of a field value or note was printed although nothing was revealed", r)
			}
		}
	}
	if atEnd != nil {
		if err := atEnd(s); err != nil {
			return s, err
		}
	}
	g.send("\x11")
	if !g.waitExit(limit) {
		return s, violate("Ctrl+Q does not end the GUI\n%s", g.describe())
	}
	if g.exit != 0 || g.crashed() {
		return s, violate("Ctrl+Q ends the GUI with an error: %s", g.describe())
	}
	return s, nil
}

// runGUI plays a session; a mismatch counts when it shows up again in a fresh process with more time.
func runGUI(e *Env, c *guiCase, faithful, locking, secrecy bool) (*guiSess, error) {
	s, err := e.playGUI(c, faithful, locking, secrecy, 4*time.Second)
	if _, ok := err.(*Violation); ok {
		s, err = e.playGUI(c, faithful, locking, secrecy, 8*time.Second)
	}
	return s, err
}

func (s *guiSess) outcome(c *guiCase, nontrivial bool) *Outcome {
	o := &Outcome{Nontrivial: nontrivial}
	for l := range s.labels {
		o.label("%s", l)
	}
	var names []string
	for _, op := range c.Ops {
		n := op.Op
		if op.N > 1 {
			n += fmt.Sprint("*", op.N)
		}
		names = append(names, n)
	}
	o.Sample = fmt.Sprintf("%dx%d, %d items: %s", c.Cols, c.Rows, len(c.Vault.Items), strings.Join(names, " "))
	return o
}

var guiWords = []string{"Amber", "Birch", "Cedar", "Delta", "Ember", "Fjord", "Grove", "Heron", "Inlet", "Jetty", "Karst", "Larch", "Mango", "Nadir", "Ochre", "Plume", "Quill", "Ridge", "Slate", "Tulip", "umbra", "vapor", "wharf", "xenon", "yucca", "zebra"}

func genGUITitle(t *rapid.T, label string) *string {
	switch intn(t, label+".k", 0, 9) {
	case 0:
		return pick(t, label+".none", nil, sp(""))
	case 1:
		return sp("long " + detString(uint64(intn(t, label+".s", 0, 1<<20)), alLower+" ", intn(t, label+".n", 20, 90)) + ".")
	case 3:
		if chance(t, label+".multi", 30) {
			return sp(pick(t, label+".w1", guiWords[:9]...) + pick(t, label+".nl", "\n", "\r\n") + pick(t, label+".w2", guiWords[9:]...))
		}
	case 2:
		return sp(pick(t, label+".w", "100% Ochre", "%s %d Plume", "<NO TITLE>", "Quill: **********", "Notes by Ridge", "Password Slate", "Error Tulip"))
	}
	ws := rapid.SliceOfN(rapid.SampledFrom(guiWords), 1, 2).Draw(t, label)
	return sp(strings.Join(ws, " "))
}

func genGUISecret(t *rapid.T, label string) string {
	v := genSecret(t, label)
	if chance(t, label+".crlf", 12) {
		v += "\r\n" + genSecret(t, label+".2")
	}
	return v
}

func guiItem(t *rapid.T, label string, used map[string]bool, k int) ItemSpec {
	it := genItem(t, label, used, &itemOpts{known: true, value: genGUISecret, label: plainLabel, title: genGUITitle, noEmptyS: true, maxField: 5})
	it.Created = 900000000 + int64(k)*1000 + abs64(it.Created)%1000 // differs between items
	it.Updated = 900000000 + abs64(it.Updated)%900000000
	it.Extra &^= 8
	if it.URL != nil {
		it.URL = sp("https://" + stringOf(t, label+".gurl", alLower+"/.?=%", 4, 20))
	}
	for j := range it.Sections {
		for k := range it.Sections[j].Fields {
			f := &it.Sections[j].Fields[k]
			if f.Num != nil && f.Kind == "date" {
				n := 32503680000 + abs64(*f.Num)%31536000000
				f.Num = &n
			}
			if f.Num != nil && f.Kind == "monthYear" {
				n := 300000 + (*f.Num/100%1000)*100 + *f.Num%100
				f.Num = &n
			}
		}
	}
	return it
}

func genGUIVault(t *rapid.T, maxItems int) VaultSpec {
	v := VaultSpec{Salt: []byte("gui salt"), Iter: intn(t, "iter", 1, 20), Seed: uint64(intn(t, "seed", 0, 1<<30)), Escape: intn(t, "esc", 0, 2)}
	v.Password = "p" + stringOf(t, "pass", alPass+"0123", 3, 20)
	if passChar(v.Password) == 0 {
		v.Password += "ա"
	}
	if chance(t, "longpw", 10) {
		v.Password += detString(uint64(intn(t, "pwseed", 0, 1<<20)), alPass, intn(t, "pwlen", 40, 90))
	}
	used := map[string]bool{}
	n := intn(t, "n", 0, maxItems)
	spread := chance(t, "spread", 40) // many categories
	for i := 0; i < n; i++ {
		it := guiItem(t, fmt.Sprintf("i%d", i), used, i)
		if spread {
			it.Cat = catCodes[(i+n)%len(catCodes)]
		}
		v.Items = append(v.Items, it)
	}
	if !spread {
		narrowCats(t, &v)
	}
	switch intn(t, "trash", 0, 5) {
	case 0:
		for i := range v.Items {
			v.Items[i].Trashed = 0
		}
	case 1:
		for i := range v.Items {
			v.Items[i].Trashed = 2
		}
	}
	return v
}

func genGUISize(t *rapid.T) (cols, rows int) {
	cols = pick(t, "cols", 80, 62, 63, 64, 70, 71, 100, 101, 120, 132, 200, 0)
	rows = pick(t, "rows", 24, 14, 15, 16, 18, 20, 25, 30, 40, 60, 0)
	if cols == 0 {
		cols = intn(t, "anycols", 62, 250)
	}
	if rows == 0 {
		rows = intn(t, "anyrows", 14, 90)
	}
	return
}

func wrongPw(t *rapid.T, label, right string) string {
	pw := nearMiss(t, label, right, true)
	pw = strings.Map(func(r rune) rune {
		if r < 0x20 || r == 0x7f {
			return 'c'
		}
		return r
	}, pw)
	if pw == right {
		pw += "ա"
	}
	return pw
}

// genGUIOps draws operations that make sense where the session is; w are weights by mode.
func genGUIOps(t *rapid.T, c *guiCase, lo, hi int, w map[string][]string) {
	n := intn(t, "nops", lo, hi)
	items := c.Vault.Items
	mode := gPrompt
	cur := c.Vault.Password
	var old []string
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("op%d", i)
		op := guiOp{Op: rapid.SampledFrom(w[mode]).Draw(t, l), Key: intn(t, l+".key", 0, 5)}
		if i == 0 && op.Op != "wrong" {
			op.Op = "unlock"
		}
		switch op.Op {
		case "down", "up":
			op.N = pick(t, l+".n", 1, 1, 2, 3, 5, 8, 13, 21)
		case "right", "left":
			op.N = pick(t, l+".n", 1, 2, 4, 9, 30)
		case "tour":
			op.N = intn(t, l+".n", 0, 1)
		case "wrong":
			op.Pw = wrongPw(t, l+".pw", cur)
			if len(old) > 0 && chance(t, l+".old", 60) {
				op.Pw = rapid.SampledFrom(old).Draw(t, l+".oldpw")
			}
			if op.Pw == cur {
				op.Pw += "x"
			}
			mode = gError
		case "unlock":
			mode = gMain
			op.N = intn(t, l+".at", 0, 30)
		case "ack":
			mode = gPrompt
		case "open":
			mode = gItems
		case "back":
			mode = gMain
		case "tab":
			if mode == gItems {
				mode = gDetails
			} else {
				mode = gItems
			}
		case "lock":
			mode = gPrompt
		case "disk":
			used := map[string]bool{}
			var next []ItemSpec
			for k := range items {
				it := items[k]
				switch intn(t, fmt.Sprintf("%s.i%d", l, k), 0, 5) {
				case 0:
					continue
				case 1:
					it.Trashed = 2 - it.Trashed
				case 2:
					it.Title = genGUITitle(t, fmt.Sprintf("%s.t%d", l, k))
				case 3:
					it.Notes = sp(genSecret(t, fmt.Sprintf("%s.nt%d", l, k)))
				}
				used[it.UID] = true
				next = append(next, it)
			}
			for k, m := 0, intn(t, l+".new", 0, 2); k < m; k++ {
				next = append(next, guiItem(t, fmt.Sprintf("%s.n%d", l, k), used, 100*(i+1)+k))
			}
			items = next
			op.Items = next
			if chance(t, l+".rekey", 35) {
				old = append(old, cur)
				if !chance(t, l+".same", 30) {
					cur = fmt.Sprintf("nn%d", i) + detString(uint64(intn(t, l+".pwseed", 0, 1<<20)), alPass, 8)
				}
				op.Pw = cur
				op.N = intn(t, l+".how", 0, 4)
			}
		}
		c.Ops = append(c.Ops, op)
	}
}

func genC19(t *rapid.T) guiCase {
	c := guiCase{Vault: genGUIVault(t, 24)}
	c.Cols, c.Rows = genGUISize(t)
	genGUIOps(t, &c, 3, 24, map[string][]string{
		gPrompt:  {"unlock", "unlock", "unlock", "disk"},
		gError:   {"ack"},
		gMain:    {"down", "down", "up", "open", "open", "lock", "tour", "junk"},
		gItems:   {"down", "down", "up", "tab", "tab", "back", "lock", "junk"},
		gDetails: {"down", "right", "tab", "tab", "up", "left", "lock", "junk"},
	})
	genBursts(t, &c)
	if n := len(c.Vault.Items); n > 0 && chance(t, "large", 6) {
		// many more items than fit any screen
		for i, m := 0, intn(t, "largen", 20, 120); i < m; i++ {
			it := c.Vault.Items[i%n]
			it.UID = fmt.Sprintf("%X%031X", i%16, 0xABC000+i)
			it.Created += int64(1000000 + i*1000)
			if it.Title != nil {
				it.Title = sp(fmt.Sprintf("%s %d", strings.TrimSpace(*it.Title), i))
			}
			c.Vault.Items = append(c.Vault.Items, it)
		}
		for i := range c.Ops {
			op := &c.Ops[i]
			if op.Op == "tour" {
				op.Op = "open"
			}
			if (op.Op == "down" || op.Op == "up") && op.N > 2 {
				op.N *= intn(t, fmt.Sprintf("far%d", i), 1, 8)
			}
			if op.Op == "disk" {
				op.Op = "unlock"
			}
		}
	}
	return c
}

// genBursts makes some operations follow each other without waiting for the screen.
func genBursts(t *rapid.T, c *guiCase) {
	if !chance(t, "bursts", 35) {
		return
	}
	for i := range c.Ops {
		if op := &c.Ops[i]; op.Op != "tour" && op.Op != "disk" {
			op.Fast = chance(t, fmt.Sprintf("fast%d", i), 70)
			if op.Op == "unlock" && op.Key%3 == 1 || op.Op == "wrong" {
				op.Key = 0
			}
		}
	}
}

func runC19(e *Env, c *guiCase) (*Outcome, error) {
	s, err := runGUI(e, c, true, false, false)
	if err != nil {
		return nil, err
	}
	return s.outcome(c, s.labels["opened a list"] || s.labels["complete tour"]), nil
}

func genC20(t *rapid.T) guiCase {
	c := guiCase{Vault: genGUIVault(t, 8)}
	c.Cols, c.Rows = genGUISize(t)
	genGUIOps(t, &c, 3, 20, map[string][]string{
		gPrompt:  {"unlock", "unlock", "wrong"},
		gError:   {"ack", "ack", "wrong", "unlock"},
		gMain:    {"open", "open", "down", "lock"},
		gItems:   {"tab", "tab", "tab", "down", "up", "back", "lock"},
		gDetails: {"tab", "tab", "lock", "down", "right", "junk"},
	})
	genBursts(t, &c)
	return c
}

func runC20(e *Env, c *guiCase) (*Outcome, error) {
	s, err := runGUI(e, c, false, false, true)
	if err != nil {
		return nil, err
	}
	return s.outcome(c, s.revealed > 0 || s.labels["wrong password"]), nil
}

// the password prompt of the GUI (C01)
func genC01GUI(t *rapid.T) guiCase {
	c := guiCase{Vault: genGUIVault(t, 2), Cols: 80, Rows: 24}
	c.Vault.Password = genPassword(t, "pw", true)
	for i, n := 0, intn(t, "tries", 1, 4); i < n; i++ {
		c.Ops = append(c.Ops, guiOp{Op: "wrong", Pw: wrongPw(t, fmt.Sprintf("w%d", i), c.Vault.Password)})
	}
	c.Ops = append(c.Ops, guiOp{Op: "unlock", Key: intn(t, "how", 0, 2), N: intn(t, "at", 0, 30)})
	return c
}

func runC01GUI(e *Env, c *guiCase) (*Outcome, error) {
	s, err := runGUI(e, c, true, true, false)
	if err != nil {
		return nil, err
	}
	return s.outcome(c, true), nil
}

func genC06GUI(t *rapid.T) guiCase {
	c := guiCase{Vault: genGUIVault(t, 8)}
	c.Cols, c.Rows = genGUISize(t)
	genGUIOps(t, &c, 3, 18, map[string][]string{
		gPrompt:  {"unlock", "unlock", "wrong", "disk"},
		gError:   {"ack", "ack", "wrong", "unlock", "disk"},
		gMain:    {"open", "open", "down", "lock"},
		gItems:   {"tab", "tab", "down", "back", "lock", "lock"},
		gDetails: {"tab", "lock", "lock", "down"},
	})
	genBursts(t, &c)
	return c
}

func runC06GUI(e *Env, c *guiCase) (*Outcome, error) {
	s, err := runGUI(e, c, false, true, false)
	if err != nil {
		return nil, err
	}
	return s.outcome(c, s.relocked > 0), nil
}

func init() {
	guiAssume := []string{"titles, labels and URLs are single-line texts of letters that take one terminal column", "the terminal has at least 62 columns and 14 rows and is not resized (C27 does that)"}
	register(&Property{
		ID:        "C06",
		Technique: "stateful property-based testing: generated histories of unlocks, locks, queries and changes on disk against a model, through the session API and the GUI",
		Rule: "A case is a history of 2-14 operations on a generated vault (right and wrong unlocks, locks, queries, validations, attempts while the vault is not there, changes of the band files or of password and keys while locked), checked after every step against the model; or a GUI session of 4-19 operations under a terminal emulator that locks from the menu, an item list or a revealed item. " +
			"Non-trivial: at least one successful unlock followed by a lock.",
		Assume: append([]string{"the vault's files are changed only while the vault is locked"}, guiAssume...),
		Subs: []*Sub{
			mk("api", 25000, 250000, genC06, runC06),
			mk("gui", 2500, 25000, genC06GUI, runC06GUI),
		},
	})
	register(&Property{
		ID:        "C19",
		Technique: "model-based property testing: generated key sequences drive the GUI under a terminal emulator, and after every key the screen is compared with a reference model of the vault",
		Rule: "A case is a vault of 0-24, sometimes up to 144 items (0-19 menu entries, clashing and missing titles), a terminal size of 62-250 by 14-90 and a session of 4-25 operations (moving, opening, leaving, revealing, scrolling, locking, unlocking, complete tours, changes on disk while locked); menu, highlighted row, item list and item pane are compared cell by cell after each, the help line with the place in the session; in a third of the cases operations follow each other without waiting for the screen. " +
			"Non-trivial: the session opened at least one list.",
		Assume: guiAssume,
		Subs:   []*Sub{mk("session", 3000, 30000, genC19, runC19)},
	})
	register(&Property{
		ID:        "C20",
		Technique: "stateful property-based testing: generated key sequences drive the GUI under a terminal emulator; values and passwords use letters of their own, so that any of them on the screen at the wrong time is a leak",
		Rule: "A case is a vault of 0-8 items whose values, notes and password are written with dedicated alphabets and a session of 4-23 operations (unlocking with right and wrong passwords, revealing, covering, moving, leaving, locking). The screen is examined after each, the complete terminal output at the end. " +
			"Non-trivial: something was revealed or a wrong password was typed.",
		Assume: guiAssume,
		Subs:   []*Sub{mk("session", 3500, 30000, genC20, runC20)},
	})
}
