package main

// Runs the GUI under a pseudo terminal and interprets its output with a small terminal emulator.

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"
)

type cell struct {
	r  rune
	fg int // -1 default
	bg int
}

type screen struct {
	w, h  int
	cells []cell
}

func newScreen(w, h int) *screen {
	s := &screen{w: w, h: h, cells: make([]cell, w*h)}
	s.clear(0, w*h)
	return s
}

func (s *screen) clear(a, b int) {
	for i := a; i < b && i < len(s.cells); i++ {
		s.cells[i] = cell{' ', -1, -1}
	}
}

func (s *screen) text(y, x0, x1 int) string {
	var sb strings.Builder
	if y < 0 || y >= s.h {
		return ""
	}
	for x := x0; x < x1 && x < s.w; x++ {
		if x >= 0 {
			sb.WriteRune(s.cells[y*s.w+x].r)
		}
	}
	return sb.String()
}

func (s *screen) row(y int) string { return s.text(y, 0, s.w) }

func (s *screen) find(sub string) bool {
	for y := 0; y < s.h; y++ {
		if strings.Contains(s.row(y), sub) {
			return true
		}
	}
	return false
}

func (s *screen) all() string {
	var l []string
	for y := 0; y < s.h; y++ {
		l = append(l, strings.TrimRight(s.row(y), " "))
	}
	return strings.Join(l, "\n")
}

// bg reports the background colour of a cell.
func (s *screen) bg(x, y int) int {
	if x < 0 || y < 0 || x >= s.w || y >= s.h {
		return -1
	}
	return s.cells[y*s.w+x].bg
}

type term struct {
	scr    *screen
	x, y   int
	fg, bg int
	rev    bool
	buf    []byte
	modes  map[string]bool // private modes set
	hidden bool            // cursor
}

func (t *term) feed(p []byte) {
	t.buf = append(t.buf, p...)
	for len(t.buf) > 0 {
		n := t.step(t.buf)
		if n == 0 {
			return
		}
		t.buf = t.buf[n:]
	}
}

func (t *term) put(r rune) {
	if t.x >= 0 && t.y >= 0 && t.x < t.scr.w && t.y < t.scr.h {
		fg, bg := t.fg, t.bg
		if t.rev {
			fg, bg = bg, fg
		}
		t.scr.cells[t.y*t.scr.w+t.x] = cell{r, fg, bg}
	}
	t.x++
}

// step consumes one unit of input; 0 means more is needed.
func (t *term) step(b []byte) int {
	switch c := b[0]; {
	case c == 0x1b:
		if len(b) < 2 {
			return 0
		}
		switch b[1] {
		case '[':
			for i := 2; i < len(b); i++ {
				if b[i] >= 0x40 && b[i] <= 0x7e {
					t.csi(string(b[2:i]), b[i])
					return i + 1
				}
			}
			return 0
		case '(', ')':
			if len(b) < 3 {
				return 0
			}
			return 3
		case ']':
			for i := 2; i < len(b); i++ {
				if b[i] == 7 {
					return i + 1
				}
				if b[i] == 0x1b && i+1 < len(b) {
					return i + 2
				}
			}
			return 0
		}
		return 2
	case c == '\r':
		t.x = 0
		return 1
	case c == '\n':
		t.y++
		return 1
	case c == '\b':
		if t.x > 0 {
			t.x--
		}
		return 1
	case c < 0x20:
		return 1
	default:
		if !utf8.FullRune(b) && len(b) < 4 {
			return 0
		}
		r, n := utf8.DecodeRune(b)
		t.put(r)
		return n
	}
}

func nums(s string) []int {
	var out []int
	for _, f := range strings.Split(s, ";") {
		n := 0
		for _, c := range f {
			if c >= '0' && c <= '9' {
				n = n*10 + int(c-'0')
			}
		}
		out = append(out, n)
	}
	return out
}

func (t *term) csi(par string, fin byte) {
	if strings.HasPrefix(par, "?") || strings.HasPrefix(par, ">") {
		if fin == 'h' || fin == 'l' {
			if t.modes == nil {
				t.modes = map[string]bool{}
			}
			for _, m := range strings.Split(par[1:], ";") {
				t.modes[m] = fin == 'h'
				if m == "25" {
					t.hidden = fin == 'l'
				}
			}
		}
		return
	}
	n := nums(par)
	arg := func(i, d int) int {
		if i < len(n) && n[i] > 0 {
			return n[i]
		}
		return d
	}
	switch fin {
	case 'H', 'f':
		t.y, t.x = arg(0, 1)-1, arg(1, 1)-1
	case 'A':
		t.y -= arg(0, 1)
	case 'B':
		t.y += arg(0, 1)
	case 'C':
		t.x += arg(0, 1)
	case 'D':
		t.x -= arg(0, 1)
	case 'G':
		t.x = arg(0, 1) - 1
	case 'J':
		pos := t.y*t.scr.w + t.x
		switch n[0] {
		case 2:
			t.scr.clear(0, len(t.scr.cells))
		case 1:
			t.scr.clear(0, pos+1)
		default:
			t.scr.clear(max(0, pos), len(t.scr.cells))
		}
	case 'K':
		if t.y >= 0 && t.y < t.scr.h {
			switch n[0] {
			case 2:
				t.scr.clear(t.y*t.scr.w, (t.y+1)*t.scr.w)
			case 1:
				t.scr.clear(t.y*t.scr.w, t.y*t.scr.w+t.x+1)
			default:
				t.scr.clear(t.y*t.scr.w+t.x, (t.y+1)*t.scr.w)
			}
		}
	case 'm':
		for i := 0; i < len(n); i++ {
			switch c := n[i]; {
			case c == 0:
				t.fg, t.bg, t.rev = -1, -1, false
			case c == 7:
				t.rev = true
			case c == 27:
				t.rev = false
			case c >= 30 && c <= 37:
				t.fg = c - 30
			case c == 39:
				t.fg = -1
			case c >= 40 && c <= 47:
				t.bg = c - 40
			case c == 49:
				t.bg = -1
			case (c == 38 || c == 48) && i+2 < len(n) && n[i+1] == 5:
				if c == 38 {
					t.fg = n[i+2]
				} else {
					t.bg = n[i+2]
				}
				i += 2
			}
		}
	}
}

type guiOpts struct {
	Args       []string
	Home, Dir  string
	Cols, Rows int
	TZ         string
	DNS, CA    string
	Exe        string
	Wrap       []string
	Keep       bool // remember the terminal mode and keep the terminal open
}

type guiRun struct {
	mu    sync.Mutex
	t     *term
	log   []byte
	last  time.Time
	gen   int
	pt    *pty
	cmd   *exec.Cmd
	died  chan struct{}
	drain chan struct{}
	exit  int
	sig   syscall.Signal
	// with guiOpts.Keep
	keep   *os.File
	before syscall.Termios
}

func (e *Env) startGUI(o *guiOpts) (*guiRun, error) {
	pt, err := openPTY(o.Cols, o.Rows, false)
	if err != nil {
		return nil, fmt.Errorf("pty: %w", err)
	}
	c := e.buildCmd(&runOpts{Args: o.Args, Home: o.Home, Dir: o.Dir, TZ: o.TZ, DNS: o.DNS, CA: o.CA, Exe: o.Exe, Wrap: o.Wrap})
	c.Stdin, c.Stdout, c.Stderr = pt.slave, pt.slave, pt.slave
	c.SysProcAttr.Setctty = true
	c.SysProcAttr.Ctty = 0
	g := &guiRun{t: &term{scr: newScreen(o.Cols, o.Rows), fg: -1, bg: -1}, pt: pt, cmd: c, died: make(chan struct{}), drain: make(chan struct{}), last: time.Now()}
	if o.Keep {
		if g.before, err = pt.termios(pt.slave.Fd()); err != nil {
			return nil, err
		}
	}
	if err := c.Start(); err != nil {
		pt.master.Close()
		pt.slave.Close()
		return nil, err
	}
	if o.Keep {
		g.keep = pt.slave
	} else {
		pt.slave.Close()
	}
	go func() {
		defer close(g.drain)
		b := make([]byte, 65536)
		for {
			n, err := pt.master.Read(b)
			if n > 0 {
				g.mu.Lock()
				g.t.feed(b[:n])
				if len(g.log) < 1<<20 {
					g.log = append(g.log, b[:n]...)
				}
				g.last = time.Now()
				g.gen++
				g.mu.Unlock()
			}
			if err != nil {
				return
			}
		}
	}()
	go func() {
		c.Wait()
		if ws, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok {
			if ws.Signaled() {
				g.sig = ws.Signal()
				g.exit = 128 + int(ws.Signal())
			} else {
				g.exit = ws.ExitStatus()
			}
		}
		close(g.died)
	}()
	return g, nil
}

// resize changes the terminal's size.
func (g *guiRun) resize(cols, rows int) error {
	ws := struct{ r, c, x, y uint16 }{uint16(rows), uint16(cols), 0, 0}
	g.mu.Lock()
	defer g.mu.Unlock()
	if old := g.t.scr; old.w == cols && old.h == rows {
		return nil
	}
	g.t.scr = newScreen(cols, rows) // blank, so that only a complete redraw counts
	g.gen++
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, g.pt.master.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws))); e != 0 {
		return e
	}
	return nil
}

func (g *guiRun) snap() *screen {
	g.mu.Lock()
	defer g.mu.Unlock()
	s := &screen{w: g.t.scr.w, h: g.t.scr.h, cells: append([]cell(nil), g.t.scr.cells...)}
	return s
}

func (g *guiRun) raw() string {
	g.mu.Lock()
	defer g.mu.Unlock()
	return string(g.log)
}

func (g *guiRun) dead() bool {
	select {
	case <-g.died:
		return true
	default:
		return false
	}
}

func (g *guiRun) send(s string) { g.pt.master.Write([]byte(s)) }

// waitFor polls the screen until the condition holds.
func (g *guiRun) waitFor(ok func(*screen) bool, limit time.Duration) bool {
	end := time.Now().Add(limit)
	gen := -1
	for {
		g.mu.Lock()
		cur := g.gen
		g.mu.Unlock()
		if cur != gen {
			gen = cur
			if ok(g.snap()) {
				return true
			}
		}
		if g.dead() {
			g.readOut()
			return ok(g.snap())
		}
		if time.Now().After(end) {
			return ok(g.snap())
		}
		time.Sleep(500 * time.Microsecond)
	}
}

// readOut waits until the last output of the ended program has been read.
func (g *guiRun) readOut() {
	start := time.Now()
	for time.Since(start) < 2*time.Second {
		select {
		case <-g.drain:
			return
		case <-time.After(time.Millisecond):
		}
		g.mu.Lock()
		quiet := min(time.Since(g.last), time.Since(start))
		g.mu.Unlock()
		if g.keep != nil && quiet > 60*time.Millisecond { // no end of file while we keep the terminal open
			return
		}
	}
}

// settle waits until nothing has been printed for a while.
func (g *guiRun) settle(quiet time.Duration) {
	start := time.Now()
	for time.Since(start) < 5*time.Second && !g.dead() {
		g.mu.Lock()
		l := g.last
		g.mu.Unlock()
		if l.Before(start) {
			l = start
		}
		if time.Since(l) >= quiet {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func (g *guiRun) waitExit(limit time.Duration) bool {
	select {
	case <-g.died:
		g.readOut()
		return true
	case <-time.After(limit):
		return false
	}
}

func (g *guiRun) crashed() bool {
	if !g.dead() {
		return false
	}
	out := g.raw()
	return g.sig != 0 || strings.Contains(out, "goroutine ") && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"))
}

func (g *guiRun) describe() string {
	if g.dead() {
		r := g.raw()
		if len(r) > 1200 {
			r = r[len(r)-1200:]
		}
		return fmt.Sprintf("the program ended with status %d; last output %q", g.exit, r)
	}
	return "screen:\n" + g.snap().all()
}

func (g *guiRun) close() {
	if !g.dead() {
		syscall.Kill(-g.cmd.Process.Pid, syscall.SIGKILL)
		g.cmd.Process.Kill()
		<-g.died
	}
	if g.keep != nil {
		g.keep.Close()
		g.keep = nil
	}
	select {
	case <-g.drain:
	case <-time.After(2 * time.Second):
	}
	g.pt.master.Close()
}
