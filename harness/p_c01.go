package main

import (
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

type c01Attempt struct {
	Pw string `json:"pw"`
}

type c01Case struct {
	Vault    VaultSpec    `json:"vault"`
	Tamper   string       `json:"tamper,omitempty"` // "", salt, iter, master, over + kind
	Kind     string       `json:"kind,omitempty"`
	A        int          `json:"a,omitempty"`
	B        int          `json:"b,omitempty"`
	Attempts []c01Attempt `json:"attempts"`
}

// nearMiss draws a password that differs from pw, mostly by very little.
func nearMiss(t *rapid.T, label, pw string, typed bool) string {
	r := []rune(pw)
	out := pw
	switch intn(t, label+".k", 0, 15) {
	case 0:
		out = pw + pick(t, label+".c", " ", "a", "\t", "0", "x", "\u00a0")
	case 1:
		out = pick(t, label+".c", " ", "a", "\ufeff", "0") + pw
	case 2: // one character fewer at the end
		if len(r) > 0 {
			out = string(r[:len(r)-1])
		}
	case 3:
		if len(r) > 0 {
			out = string(r[1:])
		}
	case 4: // one letter in the other case
		if len(r) > 0 {
			i := intn(t, label+".i", 0, len(r)-1)
			for j := range r {
				k := (i + j) % len(r)
				if u := unicode.ToUpper(r[k]); u != r[k] {
					r[k] = u
					break
				}
				if l := unicode.ToLower(r[k]); l != r[k] {
					r[k] = l
					break
				}
			}
			out = string(r)
		}
	case 5:
		out = strings.ToUpper(pw)
	case 6:
		out = strings.ToLower(pw)
	case 7:
		out = strings.TrimSpace(pw)
	case 8: // one character replaced
		if len(r) > 0 {
			i := intn(t, label+".i", 0, len(r)-1)
			r[i]++
			if r[i] >= 0xd800 && r[i] < 0xe000 || r[i] > 0x10ffff {
				r[i] = 'q'
			}
			out = string(r)
		}
	case 9: // two neighbours exchanged
		if len(r) > 1 {
			i := intn(t, label+".i", 0, len(r)-2)
			r[i], r[i+1] = r[i+1], r[i]
			out = string(r)
		}
	case 10:
		out = ""
	case 12: // a byte that is no UTF-8 added
		at := intn(t, label+".i", 0, len(r))
		out = string(r[:at]) + string(rune(0x10ff80+intn(t, label+".b", 0, 127))) + string(r[at:])
	case 13: // a character that looks the same or is often dropped
		at := intn(t, label+".i", 0, len(r))
		out = string(r[:at]) + pick(t, label+".inv", "\u200b", "\u00ad", "\ufe0f", "\u200d", "\u2060", "\r", "\u0301") + string(r[at:])
	case 14: // composed and decomposed forms
		out = strings.NewReplacer("é", "e\u0301", "e\u0301", "é", "ö", "o\u0308", "ü", "u\u0308", "ä", "a\u0308", "ż", "z\u0307", "ﬁ", "fi", "İ", "I", "Ä", "A\u0308", "Ö", "O\u0308", "Ü", "U\u0308").Replace(pw)
	case 11: // same beginning
		n := pick(t, label+".n", 8, 16, 32, 63, 64, 127, 128)
		if len(r) > n {
			out = string(r[:n])
		} else {
			out = pw + pw
		}
	default:
		out = genPassword(t, label, typed)
	}
	out = strings.ReplaceAll(out, "\x00", "n")
	if typed {
		out = strings.Map(func(x rune) rune {
			if x < 0x20 || x == 0x7f {
				return 'c'
			}
			return x
		}, out)
	}
	return out
}

var c01Items = vaultOpts{minItems: 0, maxItems: 3, item: itemOpts{control: true}}

func genC01(t *rapid.T) c01Case {
	c := c01Case{Vault: genVault(t, "v", &c01Items)}
	c.Vault.Password = strings.ReplaceAll(c.Vault.Password, "\x00", "n")
	if chance(t, "slow", 1) { // as many iterations as real vaults have
		c.Vault.Iter = pick(t, "slowiter", 10000, 20000, 40000, 65536, 100000, 100001, 150000, 200000)
	}
	if chance(t, "tamper", 35) {
		c.Tamper = pick(t, "tpart", "salt", "iter", "master", "over")
		c.Kind = pick(t, "tkind", "flip", "cut", "extend", "cuthead", "text", "junk")
		c.A = intn(t, "ta", 0, 400)
		c.B = intn(t, "tb", 0, 7)
	}
	n := intn(t, "natt", 1, 4)
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("att%d", i)
		if chance(t, l+".right", 30) {
			c.Attempts = append(c.Attempts, c01Attempt{c.Vault.Password})
		} else {
			c.Attempts = append(c.Attempts, c01Attempt{nearMiss(t, l, c.Vault.Password, false)})
		}
	}
	return c
}

// tamperBytes alters b for certain.
func tamperBytes(b []byte, kind string, a, bit int) []byte {
	out := append([]byte(nil), b...)
	switch kind {
	case "cut":
		n := a % (len(out) + 1)
		if n == len(out) {
			n = len(out) - 1
		}
		if n < 0 {
			return []byte{1}
		}
		return out[:n]
	case "cuthead":
		n := 1 + a%len(out)
		return out[n:]
	case "extend":
		return append(out, newDet(uint64(a), "ext").bytes(1+a%40)...)
	default:
		out[a%len(out)] ^= 1 << uint(bit%8)
		return out
	}
}

func applyProfileTamper(s *Sealed, part, kind string, a, b int) bool {
	text := func(m string) {
		s.Profile[m] = pick2(a, "", "!!!!", "====", "not base64 at all", "AAA", "\u0000")
	}
	if kind == "junk" && (part == "salt" || part == "master" || part == "over") {
		// something that is no base64 put into the text
		m := map[string]string{"salt": "salt", "master": "masterKey", "over": "overviewKey"}[part]
		old := s.Profile[m].(string)
		j := pick2(a, "!", "?", " ", "\u0000", "-_", "=", "*", "\u00e9", "A=", "....")
		at := len(old)
		if b%3 == 1 && len(old) > 0 && !strings.Contains(j, "=") {
			at = (a / 10) % len(old)
		}
		s.Profile[m] = old[:at] + j + old[at:]
		return true
	}
	switch part {
	case "":
		return false
	case "salt":
		if kind == "text" {
			s.Profile["salt"] = pick2(a, "!!!!", "====", "not base64 at all", "AAA") // (an absent salt is another salt too)
			return true
		}
		// an HMAC-based derivation treats trailing zero bytes of a salt as significant: any change counts
		s.Profile["salt"] = b64(tamperBytes(s.Spec.Salt, kind, a, b))
	case "iter":
		d := a%50 + 1
		n := s.Spec.Iter + d
		if kind == "cut" && s.Spec.Iter > d {
			n = s.Spec.Iter - d
		}
		if kind == "extend" {
			n = s.Spec.Iter * 2
		}
		s.Profile["iterations"] = n
	case "master":
		if kind == "text" {
			text("masterKey")
		} else {
			s.Profile["masterKey"] = b64(tamperBytes(s.MasterB, kind, a, b))
		}
	case "over":
		if kind == "text" {
			text("overviewKey")
		} else {
			s.Profile["overviewKey"] = b64(tamperBytes(s.OverB, kind, a, b))
		}
	}
	return true
}

func pick2(i int, xs ...string) string { return xs[i%len(xs)] }

func runC01(e *Env, c *c01Case) (*Outcome, error) {
	s := Seal(&c.Vault)
	tampered := applyProfileTamper(s, c.Tamper, c.Kind, c.A, c.B)
	dir := filepath.Join(e.CaseDir(), "vault")
	if err := s.Write(dir); err != nil {
		return nil, err
	}
	o := &Outcome{}
	if tampered {
		o.label("tampered %s/%s", c.Tamper, c.Kind)
	}
	ss := newSession(e, dir)
	if err := ss.f.Validate(ss.vault); err != nil {
		return nil, violate("a vault with a profile is rejected: %v", err)
	}
	if err := ss.checkLockedOut(&c.Vault, "before any password"); err != nil {
		return nil, err
	}
	for i, a := range c.Attempts {
		right := rawPw(a.Pw) == rawPw(c.Vault.Password) && !tampered
		err := ss.f.Unlock(ss.vault, rawPw(a.Pw))
		if right {
			o.label("right")
			if err != nil {
				return nil, violate("attempt %d: the right password %q is refused: %v", i, a.Pw, err)
			}
			if !ss.f.IsUnlocked() {
				return nil, violate("attempt %d: the vault is not unlocked after success", i)
			}
			if err := ss.checkBasic(&c.Vault, "after the right password"); err != nil {
				return nil, err
			}
			ss.f.Lock()
		} else {
			o.Nontrivial = true
			o.label("wrong")
			if err == nil {
				return nil, violate("attempt %d: password %q opens a vault of password %q (altered: %s %s)", i, a.Pw, c.Vault.Password, c.Tamper, c.Kind)
			}
			if err.Error() != "invalid password" {
				return nil, violate("attempt %d: refused with %q instead of the invalid-password error", i, err)
			}
			if err := ss.checkLockedOut(&c.Vault, fmt.Sprintf("after refused attempt %d", i)); err != nil {
				return nil, err
			}
		}
	}
	o.Sample = fmt.Sprintf("password %s, %d iterations, altered %q %q, attempts %d", show(c.Vault.Password), c.Vault.Iter, c.Tamper, c.Kind, len(c.Attempts))
	return o, nil
}

type c01CliCase struct {
	Vault  VaultSpec `json:"vault"`
	Pw     string    `json:"pw"`
	Cmd    string    `json:"cmd"`
	Tamper string    `json:"tamper,omitempty"`
	Kind   string    `json:"kind,omitempty"`
	A      int       `json:"a,omitempty"`
	B      int       `json:"b,omitempty"`
}

func plainTitle(t *rapid.T, label string) *string {
	return sp("ttl" + stringOf(t, label, alLower, 3, 8))
}

func genC01Cli(t *rapid.T) c01CliCase {
	c := c01CliCase{Vault: genVault(t, "v", &vaultOpts{minItems: 1, maxItems: 3, typed: true, item: itemOpts{title: plainTitle, known: true}})}
	c.Cmd = pick(t, "cmd", "list", "overview", "details")
	if chance(t, "tamper", 25) {
		c.Tamper = pick(t, "tpart", "salt", "iter", "master", "over")
		c.Kind = pick(t, "tkind", "flip", "cut", "extend", "junk")
		c.A = intn(t, "ta", 0, 400)
		c.B = intn(t, "tb", 0, 7)
	}
	if chance(t, "rawpw", 8) {
		c.Vault.Password = genRawBytes(t, "raw")
	}
	if chance(t, "right", 45) {
		c.Pw = c.Vault.Password
	} else {
		c.Pw = nearMiss(t, "pw", c.Vault.Password, true)
	}
	return c
}

func cmdArgs(cmd, vault string, it *ItemSpec) []string {
	args := []string{cmd}
	if it != nil && cmd != "list" {
		args = append(args, it.UID)
	}
	if it != nil && it.IsTrashed() {
		args = append(args, "-t")
	}
	return append(args, "-v", vault)
}

func runC01Cli(e *Env, c *c01CliCase) (*Outcome, error) {
	s := Seal(&c.Vault)
	tampered := applyProfileTamper(s, c.Tamper, c.Kind, c.A, c.B)
	dir := filepath.Join(e.CaseDir(), "vault")
	if err := s.Write(dir); err != nil {
		return nil, err
	}
	home, err := e.quietHome("")
	if err != nil {
		return nil, err
	}
	it := &c.Vault.Items[0]
	r, err := e.run(&runOpts{Args: cmdArgs(c.Cmd, dir, it), Home: home, Password: &c.Pw})
	if err != nil {
		return nil, err
	}
	if r.TimedOut {
		return nil, violate("1pass %s does not end; output %s", c.Cmd, show(r.Out))
	}
	if r.crashed() {
		return nil, violate("1pass %s crashes: %s", c.Cmd, show(r.Out))
	}
	if !r.Prompted {
		return nil, violate("1pass %s does not ask for the password: %s", c.Cmd, show(r.Out))
	}
	o := &Outcome{Nontrivial: true}
	after := r.afterPrompt()
	if rawPw(c.Pw) == rawPw(c.Vault.Password) && !tampered {
		o.label("right")
		if r.Exit != 0 || !strings.Contains(after, it.TitleStr()) {
			return nil, violate("the right password is refused by 1pass %s: exit %d, %s", c.Cmd, r.Exit, show(after))
		}
	} else {
		o.label("wrong")
		if r.Exit == 0 {
			return nil, violate("1pass %s succeeds with password %q (master password %q, altered %q): %s", c.Cmd, c.Pw, c.Vault.Password, c.Tamper, show(after))
		}
		if !strings.Contains(after, "invalid password") {
			return nil, violate("1pass %s does not report the invalid password: %s", c.Cmd, show(after))
		}
		for i := range c.Vault.Items {
			if strings.Contains(after, c.Vault.Items[i].TitleStr()) || (c.Cmd == "list" && strings.Contains(after, c.Vault.Items[i].UID)) {
				return nil, violate("1pass %s shows vault content after a wrong password: %s", c.Cmd, show(after))
			}
		}
	}
	o.Sample = fmt.Sprintf("1pass %s, password %s typed %s", c.Cmd, show(c.Vault.Password), show(c.Pw))
	return o, nil
}

var _ = base64.StdEncoding
var _ = os.Getpid

func init() {
	register(&Property{
		ID:        "C01",
		Technique: "property-based testing: generated passwords, near misses and altered profiles against an independent OPVault writer",
		Rule: "A case is a generated vault (password of any script and length, salt 1-64 bytes, 1-1000 iterations) plus unlock attempts (the password, near misses, others) and possibly one alteration " +
			"of the profile (bit flip, truncation, extension, undecodable text, other iteration count), through the session API, the commands or the GUI's password prompt. Non-trivial: at least one attempt that has to be refused (API), or any command or GUI run.",
		Assume: []string{"passwords contain no NUL character (HMAC pads short keys with NUL bytes)", "the two authentic key blobs of a profile are not exchanged for each other (the format does not authenticate their roles)"},
		Subs: []*Sub{
			mk("api", 20000, 200000, genC01, runC01),
			mk("cli", 2000, 20000, genC01Cli, runC01Cli),
			mk("gui", 800, 8000, genC01GUI, runC01GUI),
		},
	})
}
