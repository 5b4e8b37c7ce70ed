package main

// C27: GUI sessions in terminals that are resized, also to sizes in which nothing fits.

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
)

const (
	roomCols = 62
	roomRows = 12
)

func roomy(z [2]int) bool { return z[0] >= roomCols && z[1] >= roomRows }

// resize takes the terminal through sizes; the screen is judged in those with room, and the last one has room.
func (s *guiSess) resize(sizes [][2]int) error {
	var bars [2]string
	known := roomy([2]int{s.cols, s.rows}) && s.keys > 0
	if known {
		s.g.waitFor(func(sc *screen) bool { return len(s.bars(sc)[1]) >= 28 }, s.limit)
		bars = s.bars(s.g.snap())
	}
	for i, z := range sizes {
		if z[0] == s.cols && z[1] == s.rows {
			if !roomy(z) && i == 0 && s.keys == 0 {
				// started without room: let it draw
				s.labels["started without room"] = true
				s.g.settle(50 * time.Millisecond)
				if s.g.dead() {
					return violate("the GUI ended in a terminal of %d columns and %d rows: %s", z[0], z[1], s.g.describe())
				}
			}
			continue
		}
		s.cols, s.rows = z[0], z[1]
		if err := s.g.resize(z[0], z[1]); err != nil {
			return err
		}
		if !roomy(z) {
			s.labels["no room"] = true
			blank := func(sc *screen) bool {
				for _, c := range sc.cells {
					if c.r != ' ' {
						return false
					}
				}
				return true
			}
			// drawn, as far as it can be
			s.g.waitFor(func(sc *screen) bool { return !blank(sc) }, 300*time.Millisecond)
			s.g.settle(3 * time.Millisecond)
			if s.g.dead() {
				return violate("the GUI ended in a terminal of %d columns and %d rows: %s", z[0], z[1], s.g.describe())
			}
			continue
		}
		s.labels["resized in "+s.mode] = true
		s.keys++
		if err := s.expect(); err != nil {
			return err
		}
		// version line: the same text, as much of it as fits (it may grow meanwhile); help line: begins as before
		var now [2]string
		same := func(sc *screen) bool {
			now = s.bars(sc)
			for k, y := range []int{1, s.rows - 2} {
				// framed over the whole width
				if strings.ContainsAny(now[k], "│|") || sc.text(y, 0, 1) == " " || sc.text(y, s.cols-1, s.cols) == " " {
					return false
				}
			}
			if !known {
				return now[0] != "" && len(now[1]) >= 28
			}
			for k := range now {
				if k == 1 { // the help changes with the place, and may just have been doing so
					if len(now[k]) < 28 || len(bars[k]) >= 28 && now[k][:28] != bars[k][:28] {
						return false
					}
				} else if !sameBar(bars[k], now[k], s.cols-2) {
					return false
				}
			}
			return true
		}
		if !s.g.waitFor(same, s.limit) {
			return violate("%s screen: after a resize to %d columns the version and help line are %q, were %q, or not framed over the whole width\n%s", s.mode, s.cols, now, bars, s.g.describe())
		}
		for k := range now {
			if !known || len(now[k]) > len(bars[k]) {
				bars[k] = now[k]
			}
		}
		known = true
	}
	return nil
}

// bars returns the texts of the version and of the help line.
func (s *guiSess) bars(sc *screen) [2]string {
	return [2]string{strings.TrimRight(sc.text(1, 1, s.cols-1), " "), strings.TrimRight(sc.text(s.rows-2, 1, s.cols-1), " ")}
}

// sameBar says whether a line of that width can show the text that was shown before, possibly cut off.
func sameBar(before, now string, width int) bool {
	if len(now) < len(before) && len(now) < len(strings.TrimRight(before[:min(width, len(before))], " ")) {
		return false
	}
	n := min(len(before), len(now))
	return now != "" && before[:n] == now[:n]
}

type c27Case struct {
	guiCase
	Start [][2]int `json:"start,omitempty"` // sizes before the first key, the first being the one the GUI starts in
}

func genSizes(t *rapid.T, label string) [][2]int {
	var out [][2]int
	for i, n := 0, intn(t, label+".n", 1, 3); i < n; i++ {
		l := fmt.Sprintf("%s%d", label, i)
		var z [2]int
		switch intn(t, l+".k", 0, 9) {
		case 0, 1: // no room
			z = [2]int{pick(t, l+".tc", 80, 1, 2, 3, 5, 10, 20, 40, 61, 200), pick(t, l+".tr", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)}
		case 2:
			z = [2]int{pick(t, l+".tc", 1, 2, 3, 4, 5, 6, 8, 10, 20, 40, 61), pick(t, l+".tr", 24, 12, 40, 5)}
		default:
			z = [2]int{pick(t, l+".c", 80, 62, 63, 71, 100, 120, 200), pick(t, l+".r", 24, 12, 13, 14, 16, 20, 30, 60)}
		}
		out = append(out, z)
	}
	if !roomy(out[len(out)-1]) {
		out = append(out, [2]int{pick(t, label+".lc", 80, 62, 63, 101), pick(t, label+".lr", 24, 12, 13, 15, 40)})
	}
	return out
}

func genC27(t *rapid.T) c27Case {
	c := c27Case{guiCase: guiCase{Vault: genGUIVault(t, 24)}}
	c.Start = genSizes(t, "start")
	c.Cols, c.Rows = c.Start[0][0], c.Start[0][1]
	genGUIOps(t, &c.guiCase, 3, 20, map[string][]string{
		gPrompt:  {"unlock", "unlock", "resize", "wrong"},
		gError:   {"ack", "resize"},
		gMain:    {"down", "down", "up", "open", "resize", "resize", "lock"},
		gItems:   {"down", "down", "up", "tab", "resize", "resize", "back", "lock"},
		gDetails: {"down", "right", "tab", "up", "left", "resize", "resize", "lock"},
	})
	for i := range c.Ops {
		if op := &c.Ops[i]; op.Op == "resize" || op.Op == "unlock" && chance(t, fmt.Sprintf("half%d", i), 30) {
			op.Sizes = genSizes(t, fmt.Sprintf("z%d", i))
			if op.Op == "unlock" {
				op.Key = 0
			}
		}
	}
	return c
}

func runC27(e *Env, c *c27Case) (*Outcome, error) {
	play := func(limit time.Duration) (*guiSess, error) {
		g := c.guiCase
		g.Ops = append([]guiOp{{Op: "resize", Sizes: c.Start}}, g.Ops...)
		return e.playGUI(&g, true, true, false, limit)
	}
	s, err := play(4 * time.Second)
	if _, ok := err.(*Violation); ok {
		s, err = play(8 * time.Second)
	}
	if err != nil {
		return nil, err
	}
	n := 0
	for l := range s.labels {
		if len(l) > 8 && l[:8] == "resized " {
			n++
		}
	}
	return s.outcome(&c.guiCase, n > 0), nil
}

func init() {
	register(&Property{
		ID:        "C27",
		Technique: "model-based property testing: generated sessions with the GUI in a terminal that is resized between and during the operations; after every resize the screen under the terminal emulator is compared with a reference model",
		Rule: "A case is a vault of 0-24 items and a session of 4-21 operations that starts in any terminal size (1-200 columns, 1-60 rows) and is interrupted by resizes, several in a row, at the prompt, while the password is typed, in the error dialog, the menu, an item list and a revealed item. In sizes of at least 62 by 12 the complete screen is compared with the model (place in the session, selected entry, list, pane); in smaller ones the GUI has to survive. " +
			"Non-trivial: the terminal was resized to a size with room at least once.",
		Assume: []string{"titles, labels and URLs are single-line texts of letters that take one terminal column", "no key is pressed while the terminal is smaller than 62 by 12"},
		Subs:   []*Sub{mk("session", 2000, 20000, genC27, runC27)},
	})
}
