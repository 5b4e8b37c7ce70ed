package main

// Runs the real application as an unprivileged user, under a pseudo terminal or with a pipe as input.

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

type pty struct {
	master *os.File
	slave  *os.File
}

func ioctl(fd uintptr, req uintptr, arg unsafe.Pointer) error {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg))
	if e != 0 {
		return e
	}
	return nil
}

func openPTY(cols, rows int, raw bool) (*pty, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	var unlock int32
	if err := ioctl(m.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err != nil {
		m.Close()
		return nil, err
	}
	var n uint32
	if err := ioctl(m.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		m.Close()
		return nil, err
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		m.Close()
		return nil, err
	}
	ws := struct{ r, c, x, y uint16 }{uint16(rows), uint16(cols), 0, 0}
	ioctl(m.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
	var t syscall.Termios
	if err := ioctl(s.Fd(), syscall.TCGETS, unsafe.Pointer(&t)); err != nil {
		m.Close()
		s.Close()
		return nil, err
	}
	t.Oflag &^= syscall.OPOST // output bytes arrive as they are written
	ioctl(s.Fd(), syscall.TCSETS, unsafe.Pointer(&t))
	return &pty{m, s}, nil
}

func (p *pty) echo() bool {
	var t syscall.Termios
	if err := ioctl(p.master.Fd(), syscall.TCGETS, unsafe.Pointer(&t)); err != nil {
		return true
	}
	return t.Lflag&syscall.ECHO != 0
}

type runOpts struct {
	Args      []string
	Home      string
	Dir       string
	Exe       string   // default: the environment's binary
	Env       []string // additional
	TZ        string
	Password  *string // typed when the prompt appears
	Typed     string  // typed at once (lines for questions), before any prompt
	Stdin     []byte  // with a pipe instead of a terminal
	UsePipe   bool
	Limit     time.Duration
	Wrap      []string      // command put in front (strace)
	Root      bool          // do not drop privileges (wrapper drops them)
	KillAfter time.Duration // crash: SIGKILL after this time
	DNS       string
	CA        string
}

type runResult struct {
	Out      string // everything the terminal showed / stdout+stderr
	Exit     int
	Signal   syscall.Signal
	TimedOut bool
	Prompted bool // "Password:" was shown
	EchoOff  bool // and echo was off when the password was typed
	Dur      time.Duration
}

func (r *runResult) crashed() bool {
	if r.Signal != 0 && !r.TimedOut {
		return true
	}
	return strings.Contains(r.Out, "goroutine ") && (strings.Contains(r.Out, "panic:") || strings.Contains(r.Out, "fatal error:"))
}

// afterPrompt is what was printed once the password had been asked for.
func (r *runResult) afterPrompt() string {
	i := strings.Index(r.Out, "Password:")
	if i < 0 {
		return ""
	}
	return strings.TrimPrefix(r.Out[i+len("Password:"):], "\n")
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) { s.mu.Lock(); defer s.mu.Unlock(); return s.b.Write(p) }
func (s *syncBuf) String() string              { s.mu.Lock(); defer s.mu.Unlock(); return s.b.String() }

func (e *Env) buildCmd(o *runOpts) *exec.Cmd {
	exe := o.Exe
	if exe == "" {
		exe = e.Bin
	}
	argv := append(append([]string{}, o.Wrap...), exe)
	argv = append(argv, o.Args...)
	c := exec.Command(argv[0], argv[1:]...)
	c.Dir = o.Dir
	if c.Dir == "" {
		c.Dir = o.Home
	}
	tz := o.TZ
	if tz == "" {
		tz = "UTC"
	}
	dns := o.DNS
	if dns == "" {
		dns = nxDNS(e)
	}
	c.Env = append([]string{"HOME=" + o.Home, "PATH=/usr/local/bin:/usr/bin:/bin", "TERM=xterm", "LANG=C.UTF-8", "TZ=" + tz, "VERIF_DNS=" + dns,
		"GOTRACEBACK=single"}, o.Env...)
	if o.CA != "" {
		c.Env = append(c.Env, "SSL_CERT_FILE="+o.CA, "SSL_CERT_DIR=/nonexistent")
	}
	c.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Pdeathsig: syscall.SIGKILL}
	if !o.Root {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(e.UID), Gid: uint32(e.UID), NoSetGroups: false}
	}
	return c
}

// leader is a session leader that outlives the program: the end of the leader hangs the terminal up, and
// what was written but not yet read would be lost.
var leader = []string{"/bin/sh", "-c", `"$@" 3<&-; printf '\036exit %d\036' $?; read _ <&3`, "sh"}

var leaderMark = regexp.MustCompile(`\x1eexit (\d+)\x1e`)

var leaderPiped = []string{"/bin/sh", "-c", `"$@" 3<&- >&4 4>&-; s=$?; printf '\036exit %d\036' $s >&4; read _ <&3`, "sh"}

// circumstance is what a command's result must not depend on: the size and kind of the terminal, the
// language, and whether the output goes to a pipe.
type circumstance struct {
	cols, rows int
	piped      bool
	lang, term string
}

// circumstances of the next run of the case.
func (e *Env) circumstances() circumstance {
	h := fnv.New64a()
	fmt.Fprint(h, e.variant, e.runNo.Add(1))
	v := h.Sum64()
	next := func(n uint64) int {
		k := v % n
		v /= n
		return int(k)
	}
	sizes := [][2]int{{200, 60}, {200, 60}, {80, 24}, {80, 24}, {40, 10}, {20, 5}, {1, 1}, {0, 0}, {500, 100}}
	s := sizes[next(uint64(len(sizes)))]
	c := circumstance{cols: s[0], rows: s[1]}
	c.piped = next(6) == 0
	c.lang = []string{"LANG=C.UTF-8", "LANG=C.UTF-8", "LANG=C.UTF-8", "LANG=C", "LC_ALL=C", "LANG=tr_TR.UTF-8", "LC_ALL=pl_PL.ISO-8859-2", "NOLANG="}[next(8)]
	c.term = []string{"TERM=xterm", "TERM=xterm", "TERM=linux", "TERM=screen"}[next(4)]
	return c
}

func (e *Env) run(o *runOpts) (*runResult, error) {
	if o.Limit == 0 {
		o.Limit = 40 * time.Second
	}
	cir := e.circumstances()
	c := e.buildCmd(o)
	for i := range c.Env {
		if cir.lang != "" && strings.HasPrefix(c.Env[i], "LANG=") {
			c.Env[i] = cir.lang
		}
		if strings.HasPrefix(c.Env[i], "TERM=") {
			c.Env[i] = cir.term
		}
	}
	start := time.Now()
	res := &runResult{}
	var out syncBuf
	var pt *pty
	rdDone := make(chan struct{})
	if o.UsePipe {
		c.Stdin = bytes.NewReader(o.Stdin)
		c.Stdout = &out
		c.Stderr = &out
		c.WaitDelay = 3 * time.Second
		close(rdDone)
		if err := c.Start(); err != nil {
			return nil, err
		}
	} else {
		var err error
		pt, err = openPTY(cir.cols, cir.rows, false)
		if err != nil {
			return nil, fmt.Errorf("pty: %w", err)
		}
		lead := leader
		var pr, pw *os.File
		if cir.piped && o.Typed == "" && o.Password != nil {
			lead = leaderPiped
			if pr, pw, err = os.Pipe(); err != nil {
				return nil, err
			}
			defer pr.Close()
		}
		c.Path, c.Args, c.Err = lead[0], append(append([]string{}, lead...), c.Args...), nil
		c.Stdin, c.Stdout, c.Stderr = pt.slave, pt.slave, pt.slave
		c.SysProcAttr.Setctty = true
		c.SysProcAttr.Ctty = 0
		hold, release, err := os.Pipe()
		if err != nil {
			return nil, err
		}
		c.ExtraFiles = []*os.File{hold}
		if pw != nil {
			c.ExtraFiles = append(c.ExtraFiles, pw)
		}
		err = c.Start()
		if pw != nil {
			pw.Close()
		}
		pt.slave.Close()
		hold.Close()
		defer release.Close()
		if err != nil {
			pt.master.Close()
			return nil, err
		}
		read := func(f *os.File) {
			b := make([]byte, 1<<16)
			for {
				n, err := f.Read(b)
				out.Write(b[:n])
				if bytes.IndexByte(b[:n], 0x1e) >= 0 && leaderMark.MatchString(out.String()) {
					release.Close()
				}
				if err != nil {
					return
				}
			}
		}
		go func() {
			defer close(rdDone)
			read(pt.master)
		}()
		if pr != nil {
			go read(pr)
		}
		defer pt.master.Close()
		if o.Typed != "" {
			go pt.master.Write([]byte(o.Typed))
		}
	}
	died := make(chan error, 1)
	go func() { died <- c.Wait() }()
	timer := time.NewTimer(o.Limit)
	defer timer.Stop()
	var crash <-chan time.Time
	if o.KillAfter > 0 {
		ct := time.NewTimer(o.KillAfter)
		defer ct.Stop()
		crash = ct.C
	}
	tick := time.NewTicker(500 * time.Microsecond)
	defer tick.Stop()
	var promptAt time.Time
	typed := o.Password == nil || pt == nil
	var werr error
loop:
	for {
		select {
		case werr = <-died:
			break loop
		case <-crash:
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			c.Process.Kill()
		case <-timer.C:
			res.TimedOut = true
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			c.Process.Kill()
			werr = <-died
			break loop
		case <-tick.C:
			if typed {
				continue
			}
			if promptAt.IsZero() {
				if strings.Contains(out.String(), "Password:") {
					promptAt = time.Now()
				}
				continue
			}
			if !pt.echo() {
				res.EchoOff = true
			} else if time.Since(promptAt) < 5*time.Second {
				continue
			}
			typed = true
			pt.master.Write([]byte(rawPw(*o.Password) + "\n"))
		}
	}
	if pt != nil {
		select {
		case <-rdDone:
		case <-time.After(3 * time.Second):
		}
	}
	res.Dur = time.Since(start)
	res.Out = out.String()
	status := -1
	if m := leaderMark.FindStringSubmatchIndex(res.Out); pt != nil && m != nil {
		status, _ = strconv.Atoi(res.Out[m[2]:m[3]])
		res.Out = res.Out[:m[0]] + res.Out[m[1]:]
	}
	res.Prompted = strings.Contains(res.Out, "Password:")
	var ee *exec.ExitError
	switch {
	case status >= 0:
		res.Exit = status
		if status > 128 && status < 192 {
			res.Signal = syscall.Signal(status - 128)
		}
	case werr == nil:
	case errors.As(werr, &ee):
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			res.Signal = ws.Signal()
			res.Exit = 128 + int(ws.Signal())
		} else {
			res.Exit = ws.ExitStatus()
		}
	case errors.Is(werr, exec.ErrWaitDelay):
	default:
		return nil, fmt.Errorf("wait: %w", werr)
	}
	return res, nil
}

// appConfig is the content of the configuration file.
type appConfig struct {
	Vault   *string `json:"vault,omitempty"`
	Notify  *bool   `json:"notify,omitempty"`
	Timeout *int    `json:"timeout,omitempty"`
	Period  *int    `json:"period,omitempty"`
}

func yamlQuote(s string) string { return string(jsonText(s, 0)) }

func (c *appConfig) text() string {
	var sb strings.Builder
	if c.Vault != nil {
		sb.WriteString("opvault: " + yamlQuote(*c.Vault) + "\n")
	}
	if c.Timeout != nil {
		fmt.Fprintf(&sb, "timeout: %d\n", *c.Timeout)
	}
	if c.Notify != nil {
		fmt.Fprintf(&sb, "update-notification: %v\n", *c.Notify)
	}
	if c.Period != nil {
		fmt.Fprintf(&sb, "update-period: %d\n", *c.Period)
	}
	return sb.String()
}

func bp(b bool) *bool { return &b }
func ip(i int) *int   { return &i }

// home creates a home directory owned by the worker's user; cfg nil leaves it unconfigured.
func (e *Env) home(name string, cfg *appConfig) (string, error) {
	h := filepath.Join(e.CaseDir(), name)
	if err := os.MkdirAll(h, 0o755); err != nil {
		return "", err
	}
	if e.variant>>8&1 == 0 {
		// what a home usually has
		for _, d := range []string{".cache", ".local/share", ".local/state", ".config/autostart", "Documents"} {
			if err := os.MkdirAll(filepath.Join(h, d), 0o755); err != nil {
				return "", err
			}
		}
		for _, f := range []string{".profile", ".bash_history", ".config/user-dirs.dirs"} {
			if err := os.WriteFile(filepath.Join(h, f), []byte("# "+f+"\n"), 0o600); err != nil {
				return "", err
			}
		}
	}
	if cfg != nil {
		d := filepath.Join(h, ".config", "1pass")
		if err := os.MkdirAll(d, 0o700); err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(d, "1pass.yml"), []byte(cfg.text()), 0o644); err != nil {
			return "", err
		}
	}
	return h, e.chown(h)
}

// quietHome is a configured home without update notifications.
func (e *Env) quietHome(vault string) (string, error) {
	return e.home("home", &appConfig{Vault: &vault, Notify: bp(false), Timeout: ip(1), Period: ip(1)})
}

// chown hands a tree to the worker's user (links are not followed).
func (e *Env) chown(root string) error {
	return filepath.Walk(root, func(p string, _ os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		return os.Lchown(p, e.UID, e.UID)
	})
}

func forceRemove(dir string) {
	if os.RemoveAll(dir) == nil {
		return
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
	os.RemoveAll(dir)
}

func show(s string) string {
	if len(s) > 1500 {
		s = s[:900] + " ... " + s[len(s)-500:]
	}
	return fmt.Sprintf("%q", s)
}
