package main

// C28: commands given up while they wait for an answer.

import (
	"errors"
	"fmt"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

type c28Case struct {
	Cmd     string   `json:"cmd"`               // list, overview, details, configure, update
	Conf    bool     `json:"conf"`              // a configuration is stored
	Answers []string `json:"answers,omitempty"` // given before
	Half    string   `json:"half,omitempty"`    // typed, but not sent
	How     string   `json:"how"`               // ctrl-c, int, term, hup
	Vault   bool     `json:"vault"`             // named with -v
	Lag     int      `json:"lag,omitempty"`     // milliseconds between prompt and interruption
}

func genC28(t *rapid.T) c28Case {
	c := c28Case{Cmd: pick(t, "cmd", "list", "overview", "details", "configure", "update"), Conf: chance(t, "conf", 60), Vault: chance(t, "v", 50),
		How: pick(t, "how", "ctrl-c", "ctrl-c", "int", "term", "hup"), Lag: pick(t, "lag", 0, 0, 0, 1, 5, 20)}
	asks := c.Cmd == "configure" || !c.Conf && c.Cmd != "update"
	if asks {
		first := pick(t, "a0", "n", "", "y", "Y", "x")
		all := []string{first}
		if strings.EqualFold(first, "y") {
			all = append(all, "/tmp/other vault")
		}
		all = append(all, pick(t, "a1", "y", "n", ""), pick(t, "a2", "7", "", "99"), pick(t, "a3", "30", "0", ""))
		n := intn(t, "given", 0, len(all))
		if c.Cmd == "configure" {
			n = min(n, len(all)-1)
		}
		c.Answers = all[:n]
		if n == len(all) {
			c.Vault = true // reaches the password prompt
		}
	}
	if !asks && !c.Vault {
		c.Vault = chance(t, "v2", 30)
	}
	if chance(t, "half", 40) {
		c.Half = pick(t, "halftext", "y", "secre", "secret", "5", "/x", strings.Repeat("long", 200))
	}
	return c
}

// password says whether the command is waiting for the password when it is given up.
func (c *c28Case) password() bool {
	if c.Cmd == "update" || c.Cmd == "configure" {
		return false
	}
	if c.Conf {
		return true
	}
	n := 4
	if len(c.Answers) > 0 && strings.EqualFold(c.Answers[0], "y") {
		n = 5
	}
	return len(c.Answers) >= n
}

var errElse = errors.New("another property's matter")

func runC28(e *Env, c *c28Case) (*Outcome, error) {
	v := VaultSpec{Password: "secret", Iter: 1, Items: []ItemSpec{{UID: "0123456789ABCDEF0123456789ABCDEF", Cat: "001", Title: sp("ttlAlpha"), Notes: sp("nteAlpha"), Created: 1600000000, Updated: 1600000001}}}
	vdir := filepath.Join(e.CaseDir(), "v")
	if err := Seal(&v).Write(vdir); err != nil {
		return nil, err
	}
	var gh *ghServer
	if c.Cmd == "update" {
		var err error
		if gh, err = e.github(&Scenario{Releases: Resp{Body: relBody(&relSpec{Tag: "99.0.0", Assets: []string{"1pass.tar.gz", "checksum.md5"}})}}); err != nil {
			return nil, err
		}
	}
	play := func(limit time.Duration) error {
		var cfg *appConfig
		old := defaultSettings
		if c.Conf {
			cfg = &appConfig{Vault: &vdir, Notify: bp(false), Timeout: ip(3), Period: ip(11)}
			old = settings{vdir, false, 3, 11}
		}
		home, err := e.home(fmt.Sprintf("home%d", limit), cfg)
		if err != nil {
			return err
		}
		opts := &guiOpts{Home: home, Cols: 120, Rows: 40, Keep: true, Args: []string{c.Cmd}}
		sum := ""
		if gh != nil {
			opts.DNS, opts.CA = gh.dnsAddr, gh.caFile
			if opts.Exe, sum, err = e.installCopy(home); err != nil {
				return err
			}
		}
		if c.Cmd == "overview" || c.Cmd == "details" {
			opts.Args = append(opts.Args, v.Items[0].UID)
		}
		if c.Vault && c.Cmd != "configure" && c.Cmd != "update" {
			opts.Args = append(opts.Args, "-v", vdir)
		}
		g, err := e.startGUI(opts)
		if err != nil {
			return err
		}
		defer g.close()
		what := fmt.Sprintf("1pass %s (configured: %v) after the answers %q and %q half typed, given up with %s", strings.Join(opts.Args, " "), c.Conf, c.Answers, c.Half, c.How)
		// every question ends its text without a line break; wait for it before answering
		asked := func() bool {
			end := time.Now().Add(limit)
			for time.Now().Before(end) && !g.dead() {
				g.mu.Lock()
				n := len(g.log)
				last := byte('\n')
				if n > 0 {
					last = g.log[n-1]
				}
				quiet := time.Since(g.last) > 3*time.Millisecond
				g.mu.Unlock()
				if last != '\n' && quiet {
					return true
				}
				time.Sleep(500 * time.Microsecond)
			}
			return false
		}
		logged := func() int { g.mu.Lock(); defer g.mu.Unlock(); return len(g.log) }
		for _, a := range c.Answers {
			if !asked() && g.dead() {
				return errElse
			}
			before := logged()
			g.send(a + "\n")
			for k := 0; k < 2000 && logged() < before+len(a)+2 && !g.dead(); k++ { // the echo and more
				time.Sleep(500 * time.Microsecond)
			}
		}
		if c.password() {
			ok := g.waitFor(func(*screen) bool { return strings.Contains(g.raw(), "Password:") && !g.pt.echo() }, limit)
			for end := time.Now().Add(limit); !ok && time.Now().Before(end) && !g.dead(); time.Sleep(time.Millisecond) {
				ok = strings.Contains(g.raw(), "Password:") && !g.pt.echo()
			}
			if !ok {
				return errElse
			}
		} else if !asked() && g.dead() {
			return errElse
		}
		if c.Half != "" {
			g.send(c.Half)
			time.Sleep(time.Millisecond)
		}
		time.Sleep(time.Duration(c.Lag) * time.Millisecond)
		shown := g.raw()
		switch c.How {
		case "ctrl-c":
			g.send("\x03")
		default:
			syscall.Kill(g.cmd.Process.Pid, map[string]syscall.Signal{"int": syscall.SIGINT, "term": syscall.SIGTERM, "hup": syscall.SIGHUP}[c.How])
		}
		select {
		case <-g.died:
		case <-time.After(limit):
			return violate("%s: does not end within %v: %s", what, limit, show(g.raw()))
		}
		now, err := g.pt.termios(g.keep.Fd())
		if err != nil {
			return err
		}
		before := g.before
		now.Ispeed, now.Ospeed, before.Ispeed, before.Ospeed = 0, 0, 0, 0
		if !reflect.DeepEqual(now, before) {
			return violate("%s: the terminal is left in another mode (echo %v): %+v, was %+v", what, now.Lflag&syscall.ECHO != 0, now, before)
		}
		g.settle(5 * time.Millisecond)
		out := g.raw()
		if g.exit == 0 {
			return violate("%s: ends with status 0: %s", what, show(out))
		}
		if strings.Contains(out, "goroutine ") {
			return violate("%s: crash: %s", what, show(out))
		}
		if strings.Contains(out, "Alpha") {
			return violate("%s: shows content of the vault: %s", what, show(out))
		}
		if strings.Contains(out[len(shown):], "configured") {
			return violate("%s: goes on: %s", what, show(out))
		}
		if c.Cmd == "configure" || !c.password() && c.Cmd != "update" {
			if got := toSettings(openConfig(filepath.Join(home, ".config", "1pass")).GetConfig()); got != old {
				return violate("%s: the settings are %v, were %v", what, got, old)
			}
			if !c.Conf {
				if openConfig(filepath.Join(home, ".config", "1pass")).IsConfigAvailable() {
					return violate("%s: a configuration is stored", what)
				}
			}
		}
		if gh != nil {
			if s, err := fileSum(opts.Exe); err != nil || s != sum {
				return violate("%s: the program file changed (%v)", what, err)
			}
			for _, r := range gh.requests() {
				if strings.Contains(r, "tar.gz") {
					return violate("%s: the new version was downloaded", what)
				}
			}
		}
		return nil
	}
	err := play(5 * time.Second)
	if err != nil {
		err = play(12 * time.Second)
	}
	if err == errElse {
		return &Outcome{Labels: []string{"not asked as expected"}}, nil
	}
	if err != nil {
		return nil, err
	}
	o := &Outcome{Nontrivial: true, Sample: fmt.Sprintf("%s, configured %v, answers %q, half %q, %s", c.Cmd, c.Conf, c.Answers, c.Half, c.How)}
	o.label("%s by %s", c.Cmd, c.How)
	if c.password() {
		o.label("at the password prompt")
	}
	return o, nil
}

func init() {
	register(&Property{
		ID:        "C28",
		Technique: "property-based testing: generated interruptions of commands that wait for an answer, under a pseudo terminal; terminal mode, output, exit status and stored settings are compared with those before",
		Rule: "A case is a command (list, overview, details, configure, update) that is given up by CTRL+C, SIGINT, SIGTERM or SIGHUP while it waits for an answer: after 0-5 earlier answers, with or without half an answer typed, with or without a stored configuration. " +
			"Non-trivial: every case.",
		Assume: []string{"the interruption arrives once the question is shown (for the password: once echo is off)"},
		Subs:   []*Sub{mk("cli", 700, 10000, genC28, runC28)},
	})
}
