package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// ---- C07: overview and echo ----

// Secrets are written with letters nothing else uses, so that a single one of them in an output is a leak.
const alSecret = "აბგდევზთიკლმნოპჟრსტუფქღყშჩცძწჭხჯჰ"

// passwords use yet another alphabet
const alPass = "աբգդեզէըթժիլխծկհձղճմյնշոչպջռսվտրցւփք"

func genSecret(t *rapid.T, label string) string {
	core := stringOf(t, label, alSecret, 1, 14)
	switch intn(t, label+".k", 0, 8) {
	case 0:
		return "http://" + core
	case 1:
		return "+48 " + core
	case 2:
		return core + "@example.org"
	case 3:
		return strings.Repeat(core, 20)
	case 4:
		return core + "\n" + core
	case 5:
		return "**********" + core
	case 6:
		return " " + core + " "
	}
	return core
}

func plainLabel(t *rapid.T, label string) string {
	return pick(t, label, "password", "username", "notes", "URL", "bank name", "PIN", "e-mail", "website", "title", "", "ссылка", "номер", "x", "secret", "one-time password", "%v", "a: b", "number", "type", "website URL")
}

func secretChar(out string) rune {
	for _, r := range out {
		if r != 0 && strings.ContainsRune(alSecret, r) {
			return r
		}
	}
	return 0
}

func passChar(out string) rune {
	for _, r := range out {
		if strings.ContainsRune(alPass, r) {
			return r
		}
	}
	return 0
}

// secretItem generates items whose values and notes are written with the secret alphabet only.
func genSecretVault(t *rapid.T, label string, lo, hi int) VaultSpec {
	v := genVault(t, label, &vaultOpts{minItems: lo, maxItems: hi, typed: true, item: itemOpts{known: true, value: genSecret, label: plainLabel, title: genTitle5}})
	v.Password = "p" + stringOf(t, label+".pass", alPass+"0123", 3, 20)
	if passChar(v.Password) == 0 {
		v.Password += "ա"
	}
	v.Iter = 1 + v.Iter%20
	for i := range v.Items {
		it := &v.Items[i]
		it.Created, it.Updated = 900000000+abs64(it.Created)%900000000, 900000000+abs64(it.Updated)%900000000
		it.Extra &^= 8
		if it.URL != nil {
			it.URL = sp("https://" + stringOf(t, fmt.Sprintf("%s.url%d", label, i), alLower+"/.?=%", 1, 20))
		}
		for j := range it.Sections {
			for k := range it.Sections[j].Fields {
				f := &it.Sections[j].Fields[k]
				if f.Num != nil && f.Kind == "date" {
					n := 32503680000 + abs64(*f.Num)%31536000000 // years 3000-3999
					f.Num = &n
				}
				if f.Num != nil && f.Kind == "monthYear" {
					n := 300000 + (*f.Num/100%1000)*100 + *f.Num%100
					f.Num = &n
				}
			}
		}
	}
	return v
}

// generated date values lie in the years 3000 to 3999
var dateSecret = regexp.MustCompile(`3[0-9]{3}-[0-9]{2}`)

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

type c07Case struct {
	Vault VaultSpec `json:"vault"`
	Pick  int       `json:"pick"`
	Cmd   string    `json:"cmd"`
	Pw    string    `json:"pw"`
	Dmg   string    `json:"dmg,omitempty"`
	At    int       `json:"at,omitempty"`
	UID   string    `json:"uid,omitempty"`
}

func genC07(t *rapid.T) c07Case {
	c := c07Case{Vault: genSecretVault(t, "v", 1, 3)}
	c.Pick = intn(t, "pick", 0, len(c.Vault.Items)-1)
	c.Cmd = pick(t, "cmd", "overview", "overview", "overview", "details", "list")
	c.Pw = c.Vault.Password
	if chance(t, "wrong", 20) {
		c.Pw = stringOf(t, "wrongpw", alPass, 3, 40)
	}
	if chance(t, "damaged", 15) {
		c.Dmg, c.At = pick(t, "damage", damages...), intn(t, "at", 0, 4000)
	} else if chance(t, "nouid", 6) {
		c.UID = pick(t, "uid", "0", "missing", "%s", "ABCDEF")
	}
	return c
}

func runC07(e *Env, c *c07Case) (*Outcome, error) {
	dir := filepath.Join(e.CaseDir(), "v")
	if err := Seal(&c.Vault).Write(dir); err != nil {
		return nil, err
	}
	home, err := e.quietHome("")
	if err != nil {
		return nil, err
	}
	if c.Dmg != "" {
		if err := damage(dir, c.Dmg, c.At); err != nil {
			return nil, err
		}
	}
	it := &c.Vault.Items[c.Pick]
	args := cmdArgs(c.Cmd, dir, it)
	if c.UID != "" {
		for i := range args {
			if args[i] == it.UID {
				args[i] = c.UID
			}
		}
	}
	r, err := e.run(&runOpts{Args: args, Home: home, Password: &c.Pw})
	if err != nil {
		return nil, err
	}
	if c.Dmg != "" || c.UID != "" {
		// only the disclosure is judged
		if x := passChar(r.Out); x != 0 {
			return nil, violate("1pass %q shows a part of the typed password (%q): %s", args, x, show(r.Out))
		}
		if c.Cmd != "details" || c.Pw != c.Vault.Password || c.UID != "" {
			if x := secretChar(r.Out); x != 0 || dateSecret.MatchString(r.Out) {
				return nil, violate("1pass %q discloses a field value or the notes (%q): %s", args, x, show(r.Out))
			}
		}
		o := &Outcome{Nontrivial: r.Prompted, Sample: fmt.Sprintf("%q, damage %q", args[:1], c.Dmg)}
		o.label("damaged vault or unknown id")
		return o, nil
	}
	if r.TimedOut || r.crashed() || !r.Prompted {
		return nil, violate("1pass %s fails: exit %d, timed out %v, prompted %v, %s", c.Cmd, r.Exit, r.TimedOut, r.Prompted, show(r.Out))
	}
	if !r.EchoOff {
		return nil, violate("1pass %s reads the password with terminal echo on: %s", c.Cmd, show(r.Out))
	}
	if x := passChar(r.Out); x != 0 {
		return nil, violate("1pass %s shows a part of the typed password (%q): %s", c.Cmd, x, show(r.Out))
	}
	o := &Outcome{Nontrivial: true}
	right := c.Pw == c.Vault.Password
	if !right {
		o.label("wrong password")
		if r.Exit == 0 {
			return nil, violate("1pass %s accepts a wrong password: %s", c.Cmd, show(r.Out))
		}
	} else if r.Exit != 0 {
		return nil, violate("1pass %s fails: exit %d, %s", c.Cmd, r.Exit, show(r.Out))
	}
	o.label("%s", c.Cmd)
	if c.Cmd != "details" || !right {
		if x := secretChar(r.Out); x != 0 {
			return nil, violate("1pass %s discloses a field value or the notes (%q): %s", c.Cmd, x, show(r.Out))
		}
		if dateSecret.MatchString(r.Out) {
			return nil, violate("1pass %s discloses a date value: %s", c.Cmd, show(r.Out))
		}
	}
	if right && c.Cmd != "list" {
		if err := matchLines(r.afterPrompt(), it.itemLines(c.Cmd == "details", time.UTC)); err != nil {
			return nil, violate("1pass %s: %v; output %s", c.Cmd, err, show(r.afterPrompt()))
		}
	}
	o.Sample = fmt.Sprintf("1pass %s, right password %v, %d sections, %d form fields", c.Cmd, right, len(it.Sections), len(it.Form))
	return o, nil
}

// ---- C08: the right vault and the right item ----

type c08Case struct {
	Vaults  []VaultSpec `json:"vaults"`
	Default int         `json:"default"` // -1: none
	Given   int         `json:"given"`   // -1: no -v, -2: -v ""
	Cmd     string      `json:"cmd"`
	UID     string      `json:"uid"`
	Trashed bool        `json:"trashed"`
	PwOf    int         `json:"pwof"` // password of that vault; -1: another
	Rel     bool        `json:"rel,omitempty"`
	Order   int         `json:"order"`
	NoCfg   bool        `json:"nocfg,omitempty"`
}

func genC08(t *rapid.T) c08Case {
	c := c08Case{}
	n := intn(t, "nv", 1, 3)
	var uids []string
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("v%d", i)
		v := genVault(t, l, &vaultOpts{minItems: 1, maxItems: 4, typed: true, item: itemOpts{known: true, title: func(t *rapid.T, lb string) *string {
			return sp(fmt.Sprintf("ttl%c", 'a'+i) + stringOf(t, lb, alLower, 4, 8))
		}, value: genSecret, label: plainLabel}})
		v.Password = fmt.Sprintf("%d-", i) + v.Password
		v.Iter = 1
		for k := range v.Items {
			if len(uids) > 0 && chance(t, fmt.Sprintf("%s.share%d", l, k), 50) {
				u := uids[intn(t, fmt.Sprintf("%s.which%d", l, k), 0, len(uids)-1)]
				if v.byUID(u) == nil {
					v.Items[k].UID = u
				}
			}
			uids = append(uids, v.Items[k].UID)
		}
		c.Vaults = append(c.Vaults, v)
	}
	c.Default = intn(t, "default", -1, n-1)
	c.Given = intn(t, "given", -2, n-1)
	c.Cmd = pick(t, "cmd", "details", "overview", "list", "details", "overview")
	eff := c.Given
	if eff < 0 {
		eff = c.Default
	}
	c.PwOf = eff
	if chance(t, "otherpw", 20) {
		c.PwOf = intn(t, "pwof", -1, n-1)
	}
	if eff >= 0 && chance(t, "own", 75) {
		it := &c.Vaults[eff].Items[intn(t, "item", 0, len(c.Vaults[eff].Items)-1)]
		c.UID = it.UID
		c.Trashed = it.IsTrashed() != chance(t, "othertrash", 30)
	} else {
		c.UID = uids[intn(t, "anyuid", 0, len(uids)-1)]
		c.Trashed = chance(t, "trash", 30)
	}
	if chance(t, "mangle", 20) {
		c.UID = mangleUID(t, "mu", c.UID)
		if c.UID == "" {
			c.UID = "0"
		}
	}
	c.Rel = chance(t, "rel", 25)
	c.Order = intn(t, "order", 0, 2)
	return c
}

func runC08(e *Env, c *c08Case) (*Outcome, error) {
	root := e.CaseDir()
	var dirs []string
	for i := range c.Vaults {
		d := filepath.Join(root, "vaults", fmt.Sprintf("v%d", i))
		if err := Seal(&c.Vaults[i]).Write(d); err != nil {
			return nil, err
		}
		dirs = append(dirs, d)
	}
	def := ""
	if c.Default >= 0 {
		def = dirs[c.Default]
	}
	home, err := e.quietHome(def)
	if err != nil {
		return nil, err
	}
	wd := filepath.Join(root, "vaults")
	var flags []string
	if c.Given >= 0 {
		p := dirs[c.Given]
		if c.Rel {
			p = fmt.Sprintf("v%d", c.Given)
		}
		flags = append(flags, "-v", p)
	} else if c.Given == -2 {
		flags = append(flags, "-v", "")
	}
	if c.Trashed {
		flags = append(flags, "-t")
	}
	args := []string{c.Cmd}
	if c.Cmd != "list" {
		if c.Order == 1 {
			args = append(append(args, flags...), c.UID)
		} else {
			args = append(append(args, c.UID), flags...)
		}
	} else {
		args = append(args, flags...)
	}
	pw := "none of them"
	if c.PwOf >= 0 {
		pw = c.Vaults[c.PwOf].Password
	}
	r, err := e.run(&runOpts{Args: args, Home: home, Dir: wd, Password: &pw})
	if err != nil {
		return nil, err
	}
	if r.TimedOut || r.crashed() {
		return nil, violate("1pass %q fails: exit %d, timed out %v, %s", args, r.Exit, r.TimedOut, show(r.Out))
	}
	eff := c.Given
	if eff < 0 {
		eff = c.Default
	}
	o := &Outcome{Nontrivial: len(c.Vaults) > 1}
	// nothing of other vaults, ever
	noneBut := func(v int, uid string) error {
		for i := range c.Vaults {
			for k := range c.Vaults[i].Items {
				it := &c.Vaults[i].Items[k]
				if i == v && (uid == "*" || it.UID == uid) {
					continue
				}
				if strings.Contains(r.Out, it.TitleStr()) {
					return violate("1pass %q shows the title %q of item %s of vault %d: %s", args, it.TitleStr(), it.UID, i, show(r.Out))
				}
			}
		}
		return nil
	}
	if eff < 0 {
		o.label("no vault at all")
		if r.Exit == 0 || r.Prompted || !strings.Contains(r.Out, "invalid vault") {
			return nil, violate("1pass %q without any vault: exit %d, %s", args, r.Exit, show(r.Out))
		}
		return o, noneBut(-1, "")
	}
	v := &c.Vaults[eff]
	if !r.Prompted {
		return nil, violate("1pass %q does not ask for the password of vault %d: %s", args, eff, show(r.Out))
	}
	if pw != v.Password {
		o.label("wrong password")
		if r.Exit == 0 || !strings.Contains(r.Out, "invalid password") {
			return nil, violate("1pass %q with the password of vault %d instead of %d: exit %d, %s", args, c.PwOf, eff, r.Exit, show(r.Out))
		}
		if secretChar(r.Out) != 0 {
			return nil, violate("1pass %q shows values after a wrong password: %s", args, show(r.Out))
		}
		if len(listRows(r.afterPrompt())) != 0 {
			return nil, violate("1pass %q shows rows after a wrong password: %s", args, show(r.Out))
		}
		return o, noneBut(-1, "")
	}
	if r.Exit != 0 {
		return nil, violate("1pass %q fails: exit %d, %s", args, r.Exit, show(r.Out))
	}
	if c.Cmd == "list" {
		if err := checkListRows(r.afterPrompt(), v.query("", "", c.Trashed)); err != nil {
			return nil, violate("1pass %q on vault %d: %v; output %s", args, eff, err, show(r.afterPrompt()))
		}
		return o, noneBut(eff, "*")
	}
	it := v.byUID(c.UID)
	if it == nil || it.IsTrashed() != c.Trashed {
		o.label("absent item")
		if !strings.Contains(r.afterPrompt(), "do not exist") {
			return nil, violate("1pass %q: the item does not exist in vault %d with trashed=%v, output %s", args, eff, c.Trashed, show(r.Out))
		}
		if secretChar(r.Out) != 0 {
			return nil, violate("1pass %q shows values although the item does not exist: %s", args, show(r.Out))
		}
		return o, noneBut(-1, "")
	}
	o.label("item shown")
	if err := matchLines(r.afterPrompt(), it.itemLines(c.Cmd == "details", time.UTC)); err != nil {
		return nil, violate("1pass %q on vault %d: %v; output %s", args, eff, err, show(r.afterPrompt()))
	}
	o.Sample = fmt.Sprintf("%q, default vault %d, effective %d", args, c.Default, eff)
	return o, noneBut(eff, c.UID)
}

// ---- C12: accepted vault paths ----

type c12Case struct {
	Kind   string `json:"kind"`
	Name   string `json:"name"`
	Spell  string `json:"spell"`
	Cmd    string `json:"cmd"`
	AsDflt bool   `json:"asdflt"`
	Other  string `json:"other,omitempty"` // the default vault when another one is asked for
}

var c12Good = []string{"plain", "plain", "linkdir", "linkprofile", "linkdefault", "nobands", "extra", "nested", "linklink"}
var c12Bad = []string{"missing", "file", "nodefault", "defaultfile", "profiledir", "noprofile", "dangling", "danglingprofile", "danglingdefault", "inside", "profile", "case", "profilecase", "throughfile", "emptyname", "otherprofile", "linkfile", "bandsonly", "loop", "pattern"}

func genC12(t *rapid.T) c12Case {
	c := c12Case{}
	if chance(t, "good", 45) {
		c.Kind = rapid.SampledFrom(c12Good).Draw(t, "kind")
	} else {
		c.Kind = rapid.SampledFrom(c12Bad).Draw(t, "kind")
	}
	c.Name = cleanDirName(genDirName(t, "name"))
	if c.Kind == "pattern" {
		c.Name = "plainname"
	}
	c.Spell = pick(t, "spell", "abs", "abs", "rel", "dotrel", "slash", "dslash", "updown", "dotmid")
	c.Cmd = pick(t, "cmd", "list", "overview", "details", "gui", "gui")
	c.AsDflt = chance(t, "asdflt", 35)
	if !c.AsDflt {
		// the default vault is not what is asked for
		c.Other = pick(t, "other", "", "valid", "valid", "missing")
	}
	return c
}

func runC12(e *Env, c *c12Case) (*Outcome, error) {
	root := filepath.Join(e.CaseDir(), "r")
	v := VaultSpec{Password: "pw", Salt: []byte("salt"), Iter: 1, Seed: 1, Items: []ItemSpec{{UID: "0123456789ABCDEF0123456789ABCDEF", Cat: "001", Title: sp("ttlvalid"), Created: 1, Updated: 2}}}
	p := filepath.Join(root, c.Name)
	def := filepath.Join(p, "default")
	prof := filepath.Join(def, "profile.js")
	if err := Seal(&v).Write(p); err != nil {
		return nil, err
	}
	must := func(errs ...error) error {
		for _, x := range errs {
			if x != nil {
				return x
			}
		}
		return nil
	}
	good := false
	for _, g := range c12Good {
		good = good || g == c.Kind
	}
	name := c.Name
	hidden := filepath.Join(root, "elsewhere-x")
	var err error
	showsItem := true
	switch c.Kind {
	case "plain":
	case "linkdir":
		err = must(os.Rename(p, hidden), os.Symlink(hidden, p))
	case "linklink":
		err = must(os.Rename(p, hidden), os.Symlink("elsewhere-x", filepath.Join(root, "mid-x")), os.Symlink(filepath.Join(root, "mid-x"), p))
	case "linkprofile":
		err = must(os.Rename(prof, filepath.Join(root, "p-x.js")), os.Symlink(filepath.Join(root, "p-x.js"), prof))
	case "linkdefault":
		err = must(os.Rename(def, hidden), os.Symlink(hidden, def))
	case "nobands":
		err = os.Remove(filepath.Join(def, "band_0.js"))
		showsItem = false
	case "extra":
		err = must(os.WriteFile(filepath.Join(p, "README"), []byte("x"), 0o644), os.WriteFile(filepath.Join(def, "folders.js"), []byte("loadFolders({});"), 0o644), os.Mkdir(filepath.Join(def, "0123_attachments"), 0o755))
	case "nested":
		q := filepath.Join(root, "up-x", "deep")
		err = must(os.MkdirAll(q, 0o755), os.Rename(p, filepath.Join(q, c.Name)))
		name = "up-x/deep/" + c.Name
	case "missing":
		err = os.RemoveAll(p)
	case "file":
		err = must(os.RemoveAll(p), os.WriteFile(p, []byte("x"), 0o644))
	case "nodefault":
		err = os.RemoveAll(def)
	case "defaultfile":
		err = must(os.RemoveAll(def), os.WriteFile(def, []byte("x"), 0o644))
	case "profiledir":
		err = must(os.Remove(prof), os.Mkdir(prof, 0o755))
	case "noprofile", "bandsonly":
		err = os.Remove(prof)
	case "dangling":
		err = must(os.RemoveAll(p), os.Symlink(filepath.Join(root, "nothing-x"), p))
	case "danglingprofile":
		err = must(os.Remove(prof), os.Symlink(filepath.Join(root, "nothing-x"), prof))
	case "danglingdefault":
		err = must(os.RemoveAll(def), os.Symlink(filepath.Join(root, "nothing-x"), def))
	case "loop":
		err = must(os.RemoveAll(p), os.Symlink(p, p))
	case "inside":
		name = c.Name + "/default"
	case "profile":
		name = c.Name + "/default/profile.js"
	case "case":
		err = os.Rename(def, filepath.Join(p, "Default"))
	case "profilecase":
		err = os.Rename(prof, filepath.Join(def, "Profile.js"))
	case "otherprofile":
		err = os.Rename(prof, filepath.Join(p, "profile.js"))
	case "throughfile":
		err = must(os.WriteFile(filepath.Join(root, "f-x"), []byte("x"), 0o644))
		name = "f-x/" + c.Name
	case "emptyname":
		name = ""
	case "linkfile":
		err = must(os.RemoveAll(p), os.WriteFile(filepath.Join(root, "f-x"), []byte("x"), 0o644), os.Symlink("f-x", p))
	case "pattern": // a pattern that matches a vault is not its name
		name = "plainnam?"
	default:
		return nil, fmt.Errorf("kind %s", c.Kind)
	}
	if err != nil {
		return nil, err
	}
	path := filepath.Join(root, name)
	if strings.HasSuffix(name, " ") || strings.HasPrefix(name, "..") {
		path = root + "/" + name
	}
	switch c.Spell {
	case "rel":
		path = name
	case "dotrel":
		path = "./" + name
	case "slash":
		path += "/"
	case "dslash":
		path = root + "//" + name + "//"
	case "updown":
		path = root + "/../" + filepath.Base(root) + "/" + name
	case "dotmid":
		path = root + "/./" + name + "/."
	}
	if name == "" {
		path = ""
	}
	if c.Kind == "linkfile" || c.Kind == "file" || c.Kind == "profile" {
		// a trailing slash after a file is just another invalid spelling
	}
	cfgVault := ""
	var args []string
	if c.Cmd != "gui" {
		args = append(args, c.Cmd)
		if c.Cmd != "list" {
			args = append(args, "0123456789ABCDEF0123456789ABCDEF")
		}
	}
	if c.AsDflt {
		cfgVault = path
	} else {
		args = append(args, "--vault="+path)
		if path != "" && c.Other != "" {
			cfgVault = filepath.Join(e.CaseDir(), "dflt")
			if c.Other == "valid" {
				w := v
				w.Items = []ItemSpec{{UID: v.Items[0].UID, Cat: "001", Title: sp("ttlother"), Created: 1, Updated: 2}}
				if err := Seal(&w).Write(cfgVault); err != nil {
					return nil, err
				}
			}
		}
	}
	home, err := e.quietHome(cfgVault)
	if err != nil {
		return nil, err
	}
	o := &Outcome{Nontrivial: true}
	o.label("%s", c.Kind)
	if c.Other != "" {
		o.label("another default vault (%s)", c.Other)
	}
	o.Sample = fmt.Sprintf("%s %q as %q", c.Kind, c.Name, args)
	if c.Cmd == "gui" {
		g, err := e.startGUI(&guiOpts{Args: args, Home: home, Dir: root, Cols: 80, Rows: 24})
		if err != nil {
			return nil, err
		}
		defer g.close()
		if good {
			if !g.waitFor(func(s *screen) bool { return s.find("Password") }, 10*time.Second) {
				return nil, violate("the GUI does not ask for the password of the valid vault %q (%s): %s", path, c.Kind, g.describe())
			}
			return o, nil
		}
		if !g.waitExit(10 * time.Second) {
			return nil, violate("the GUI accepts the invalid vault %q (%s): %s", path, c.Kind, g.describe())
		}
		if g.exit == 0 || !strings.Contains(g.raw(), "invalid vault") || strings.Contains(strings.ReplaceAll(g.raw(), c.Name, ""), "Password") {
			return nil, violate("the GUI on the invalid vault %q (%s): exit %d, %s", path, c.Kind, g.exit, show(g.raw()))
		}
		return o, nil
	}
	r, err := e.run(&runOpts{Args: args, Home: home, Dir: root, Password: &v.Password})
	if err != nil {
		return nil, err
	}
	if r.TimedOut || r.crashed() {
		return nil, violate("1pass %q (%s) fails: exit %d, timed out %v, %s", args, c.Kind, r.Exit, r.TimedOut, show(r.Out))
	}
	if good {
		want := "ttlvalid"
		if !showsItem {
			want = ""
		}
		if r.Exit != 0 || !r.Prompted || !strings.Contains(r.afterPrompt(), want) || strings.Contains(r.Out, "ttlother") {
			return nil, violate("1pass %q rejects the valid vault (%s, default %q): exit %d, %s", args, c.Kind, cfgVault, r.Exit, show(r.Out))
		}
		return o, nil
	}
	if r.Exit == 0 || r.Prompted || !strings.Contains(r.Out, "invalid vault") {
		return nil, violate("1pass %q on an invalid vault (%s, default %q): exit %d, prompted %v, %s", args, c.Kind, cfgVault, r.Exit, r.Prompted, show(r.Out))
	}
	return o, nil
}

// ---- C09: read only ----

type fileState struct {
	mode os.FileMode
	data string
}

func snapshot(root string) (map[string]fileState, error) {
	out := map[string]fileState{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		st := fileState{mode: fi.Mode()}
		switch {
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			st.data = string(b)
		case fi.Mode()&os.ModeSymlink != 0:
			st.data, _ = os.Readlink(p)
		}
		out[rel] = st
		return nil
	})
	return out, err
}

func diffSnap(a, b map[string]fileState) string {
	var d []string
	for k, x := range a {
		y, ok := b[k]
		switch {
		case !ok:
			d = append(d, k+" is gone")
		case x.mode != y.mode:
			d = append(d, fmt.Sprintf("%s has mode %v instead of %v", k, y.mode, x.mode))
		case x.data != y.data:
			d = append(d, fmt.Sprintf("%s has other content (%d bytes, was %d)", k, len(y.data), len(x.data)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, k+" is new")
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

// damage alters a written vault the way broken synchronisation does: kind[0] says what, at says where.
func damage(dir, kind string, at int) error {
	d := filepath.Join(dir, "default")
	name := filepath.Join(d, "profile.js")
	if strings.HasPrefix(kind, "band") || strings.HasPrefix(kind, "item") {
		m, _ := filepath.Glob(strings.NewReplacer("[", "\\[", "*", "\\*", "?", "\\?", "\\", "\\\\").Replace(d) + "/band_*.js")
		if len(m) == 0 {
			return nil
		}
		name = m[at%len(m)]
	}
	b, err := os.ReadFile(name)
	if err != nil {
		return err
	}
	switch kind {
	case "profilecut", "bandcut":
		b = b[:at%(len(b)+1)]
	case "profilejunk", "bandjunk":
		b = append(b[:len(b)/2:len(b)/2], []byte("\x00junk")...)
	case "itemflip": // one character of base64 text somewhere in the band
		p := at % len(b)
		for i := range b {
			q := (p + i) % len(b)
			if b[q] >= 'a' && b[q] < 'z' && q > 8 && b[q-1] != '"' && b[q-1] != '\\' {
				b[q]++
				break
			}
		}
	case "banddup":
		return os.WriteFile(filepath.Join(d, "band_X.js"), b, 0o644)
	}
	return os.WriteFile(name, b, 0o644)
}

var damages = []string{"profilecut", "profilejunk", "bandcut", "bandjunk", "itemflip", "itemflip", "banddup"}

const writeCalls = "open,openat,openat2,creat,mkdir,mkdirat,rename,renameat,renameat2,unlink,unlinkat,rmdir,link,linkat,symlink,symlinkat,truncate,chmod,fchmodat,chown,fchownat,lchown,mknod,mknodat,memfd_create,utimensat,utimes"

var straceStr = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)

// fileWrites lists the paths a strace log shows to be created, opened for writing, renamed, changed or
// removed, apart from devices and what allowed accepts.
func fileWrites(log, wd string, allowed func(p string) bool) ([]string, error) {
	b, err := os.ReadFile(log)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, " = -1 E") || strings.Contains(l, "resumed>") {
			continue
		}
		i := strings.Index(l, "(")
		if i < 0 {
			continue
		}
		w := strings.Fields(l[:i])
		if len(w) == 0 {
			continue
		}
		call := w[len(w)-1]
		if strings.HasPrefix(call, "open") && !strings.Contains(l, "O_WRONLY") && !strings.Contains(l, "O_RDWR") && !strings.Contains(l, "O_CREAT") && !strings.Contains(l, "O_TRUNC") {
			continue
		}
		if call == "memfd_create" {
			continue
		}
		for _, m := range straceStr.FindAllStringSubmatch(l, -1) {
			p, err := strconv.Unquote(`"` + m[1] + `"`)
			if err != nil {
				p = m[1]
			}
			if !filepath.IsAbs(p) {
				p = filepath.Join(wd, p)
			}
			p = filepath.Clean(p)
			if strings.HasPrefix(p, "/dev/") && !strings.HasPrefix(p, "/dev/shm/") || strings.HasPrefix(p, "/proc/") || strings.HasPrefix(p, "/sys/") || allowed(p) {
				continue
			}
			out = append(out, call+" "+p)
		}
	}
	return out, nil
}

// strayFiles lists what the user left in the machine's shared temporary directories.
func (e *Env) strayFiles() []string {
	var out []string
	for _, d := range []string{"/tmp", "/var/tmp", "/dev/shm", "/run/lock", "/var/lock", "/run"} {
		ents, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, x := range ents {
			fi, err := x.Info()
			if err != nil {
				continue
			}
			if st, ok := fi.Sys().(*syscall.Stat_t); ok && int(st.Uid) == e.UID && !strings.HasPrefix(e.Scratch, filepath.Join(d, x.Name())) {
				out = append(out, filepath.Join(d, x.Name()))
			}
		}
	}
	return out
}

func (e *Env) cleanStray() {
	for _, p := range e.strayFiles() {
		os.RemoveAll(p)
	}
}

type c09Op struct {
	Cmd   string   `json:"cmd"`
	Pick  int      `json:"pick"`
	Right bool     `json:"right"`
	Dflt  bool     `json:"dflt,omitempty"`
	Lines string   `json:"lines,omitempty"`
	Keys  []string `json:"keys,omitempty"`
	More  []string `json:"more,omitempty"` // further arguments
	UID   string   `json:"uid,omitempty"`  // instead of the picked item's
}

type c09Case struct {
	Vault  VaultSpec `json:"vault"`
	Ops    []c09Op   `json:"ops"`
	Config bool      `json:"config"`
	Notify bool      `json:"notify"`
	Stamp  bool      `json:"stamp"`
	InVlt  bool      `json:"invlt,omitempty"` // working directory is the vault itself
	FMode  int       `json:"fmode,omitempty"` // permissions of the vault's files and directories
	DMode  int       `json:"dmode,omitempty"`
	Extra  []string  `json:"extra,omitempty"` // further files in the vault
	Damage string    `json:"damage,omitempty"`
	At     int       `json:"at,omitempty"`
	Trace  bool      `json:"trace,omitempty"` // watch the system calls
}

var c09Extra = []string{"default/.1pass.tmp", "default/profile.js.tmp", "default/profile.js~", "default/profile.js.bak", "default/band_0.js.bak", "default/band_A.js~", "default/.lock", "default/lock", "default/.DS_Store",
	"default/0123456789ABCDEF0123456789ABCDEF_FEDCBA9876543210FEDCBA9876543210.attachment", "default/band_F.js.swp", "default/empty.js", ".keychain", "default/tmp/x", "default/#band_1.js#", "1pass.yml", "default/lastcheck", "lastcheck", "other/profile.js"}

func genC09(t *rapid.T) c09Case {
	c := c09Case{Vault: genSecretVault(t, "v", 1, 4), Config: chance(t, "cfg", 80), Notify: chance(t, "notify", 40), Stamp: chance(t, "stamp", 30), InVlt: chance(t, "invlt", 30)}
	for i := range c.Vault.Items {
		c.Vault.Items[i].Title = sp(stringOf(t, fmt.Sprintf("ttl%d", i), alSecret+"ab", 3, 10))
	}
	c.FMode = pick(t, "fmode", 0o644, 0o644, 0o600, 0o664, 0o666, 0o640, 0o444, 0o400, 0o755, 0o777, 0o700)
	c.DMode = pick(t, "dmode", 0o755, 0o755, 0o700, 0o777, 0o775, 0o555, 0o500)
	if chance(t, "hasextra", 50) {
		c.Extra = rapid.SliceOfNDistinct(rapid.SampledFrom(c09Extra), 1, 5, rapid.ID[string]).Draw(t, "extra")
	}
	for i, n := 0, intn(t, "nops", 1, 4); i < n; i++ {
		l := fmt.Sprintf("op%d", i)
		op := c09Op{Cmd: pick(t, l, "list", "overview", "details", "details", "gui", "categories", "configure", "version"), Pick: intn(t, l+".p", 0, len(c.Vault.Items)-1), Right: !chance(t, l+".wrong", 25), Dflt: chance(t, l+".d", 40)}
		if op.Cmd == "configure" {
			op.Lines = pick(t, l+".lines", "n\nn\n5\n3\n", "n\n\n\n\n", "\n\n\n\n", "n\ny\n30\n365\n")
		}
		if op.Cmd == "list" && chance(t, l+".filter", 60) {
			op.More = pick(t, l+".more", []string{"-t"}, []string{"-n", "a"}, []string{"-c", "login"}, []string{"-c", "nonsense"}, []string{"-n", "zzzz", "-t"}, []string{"-c", "Password", "-n", "b"})
		}
		if (op.Cmd == "overview" || op.Cmd == "details") && chance(t, l+".nouid", 15) {
			op.UID = pick(t, l+".uid", "0", "missing", "../x", "/etc/passwd", "%s")
		}
		if op.Cmd == "gui" {
			op.Keys = rapid.SliceOfN(rapid.SampledFrom([]string{"j", "k", "\r", "\t", "q", "l", "h", "\x0c"}), 0, 8).Draw(t, l+".keys")
		}
		c.Ops = append(c.Ops, op)
	}
	if chance(t, "damaged", 20) {
		c.Damage, c.At = pick(t, "damage", damages...), intn(t, "at", 0, 4000)
	}
	c.Trace = chance(t, "trace", 25)
	return c
}

func runC09(e *Env, c *c09Case) (*Outcome, error) {
	root := e.CaseDir()
	dir := filepath.Join(root, "vaultdir", "v")
	if err := Seal(&c.Vault).Write(dir); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "default", "folders.js"), []byte("loadFolders({});"), 0o640); err != nil {
		return nil, err
	}
	if c.Damage != "" {
		if err := damage(dir, c.Damage, c.At); err != nil {
			return nil, err
		}
	}
	for _, x := range c.Extra {
		p := filepath.Join(dir, x)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(p, []byte(strings.Repeat("x", len(x)%7)), 0o644); err != nil {
			return nil, err
		}
	}
	if c.FMode != 0 {
		var dirs []string
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				dirs = append(dirs, p)
			} else if err == nil {
				os.Chmod(p, os.FileMode(c.FMode))
			}
			return nil
		})
		for _, d := range dirs {
			os.Chmod(d, os.FileMode(c.DMode))
		}
	}
	if err := e.chown(filepath.Join(root, "vaultdir")); err != nil {
		return nil, err
	}
	var cfg *appConfig
	if c.Config {
		cfg = &appConfig{Vault: &dir, Notify: bp(c.Notify), Timeout: ip(1), Period: ip(0)}
	}
	home, err := e.home("home", cfg)
	if err != nil {
		return nil, err
	}
	if c.Stamp && c.Config {
		if err := os.WriteFile(filepath.Join(home, ".config", "1pass", "lastcheck"), []byte("1600000000"), 0o644); err != nil {
			return nil, err
		}
	}
	for p, txt := range map[string]string{".bashrc": "alias x=y", ".config/other/1pass.yml": "a: b", "1pass.yml": "opvault: nowhere", ".cache/keep": "k", ".1pass": "old"} {
		p = filepath.Join(home, p)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(p, []byte(txt), 0o640); err != nil {
			return nil, err
		}
	}
	wd := filepath.Join(root, "wd")
	if err := os.MkdirAll(wd, 0o755); err != nil {
		return nil, err
	}
	if err := e.chown(root); err != nil {
		return nil, err
	}
	e.cleanStray()
	if c.InVlt {
		wd = dir
	}
	before, err := snapshot(root)
	if err != nil {
		return nil, err
	}
	o := &Outcome{Nontrivial: true}
	configured := c.Config
	if c.Damage != "" {
		o.label("damaged: %s", c.Damage)
	}
	logs := root + ".trace"
	var wrap []string
	if c.Trace && e.canStrace() {
		if err := os.MkdirAll(logs, 0o755); err != nil {
			return nil, err
		}
		defer os.RemoveAll(logs)
		if err := e.chown(logs); err != nil {
			return nil, err
		}
		wrap = []string{"strace", "-f", "-q", "-s", "4096", "-o", filepath.Join(logs, "log"), "-e", "trace=?" + strings.ReplaceAll(writeCalls, ",", ",?"), "-e", "signal=none"}
		o.label("traced")
	}
	traced := func(what string) error {
		if wrap == nil {
			return nil
		}
		ws, err := fileWrites(filepath.Join(logs, "log"), wd, func(p string) bool {
			return p == filepath.Join(home, ".config") || strings.HasPrefix(p+"/", filepath.Join(home, ".config", "1pass")+"/")
		})
		if err != nil {
			return err
		}
		if len(ws) > 0 {
			return violate("during %s files outside the configuration directory are written: %s", what, show(strings.Join(ws, "; ")))
		}
		return nil
	}
	for _, op := range c.Ops {
		it := &c.Vault.Items[op.Pick]
		var args []string
		if op.Cmd != "gui" {
			args = append(args, op.Cmd)
		}
		pw := c.Vault.Password
		if !op.Right {
			pw = "ցւփքաբ-wrong"
		}
		switch op.Cmd {
		case "overview", "details":
			uid := it.UID
			if op.UID != "" {
				uid = op.UID
			}
			args = append(args, uid)
			if it.IsTrashed() {
				args = append(args, "-t")
			}
		}
		args = append(args, op.More...)
		if !(op.Dflt && c.Config) && (op.Cmd == "list" || op.Cmd == "overview" || op.Cmd == "details" || op.Cmd == "gui") {
			args = append(args, "-v", dir)
		}
		o.label("%s", op.Cmd)
		if op.Cmd == "gui" {
			if !configured {
				continue // the first-run questions are asked on the same terminal
			}
			g, err := e.startGUI(&guiOpts{Args: args, Home: home, Dir: wd, Cols: 80, Rows: 24, Wrap: wrap})
			if err != nil {
				return nil, err
			}
			if g.waitFor(func(s *screen) bool { return s.find("Password") }, 10*time.Second) {
				g.send(pw + "\r")
				g.settle(150 * time.Millisecond)
				for _, k := range op.Keys {
					g.send(k)
					g.settle(20 * time.Millisecond)
				}
				g.send("\x11")
				g.waitExit(5 * time.Second)
			}
			g.close()
			if err := traced(op.Cmd); err != nil {
				return nil, err
			}
			continue
		}
		ro := &runOpts{Args: args, Home: home, Dir: wd, Password: &pw, Typed: op.Lines, Wrap: wrap}
		if !configured && op.Cmd != "categories" && op.Cmd != "version" && op.Cmd != "configure" {
			ro.Typed = "n\nn\n1\n1\n"
		}
		r, err := e.run(ro)
		if err != nil {
			return nil, err
		}
		if r.TimedOut {
			return nil, violate("1pass %q does not end: %s", args, show(r.Out))
		}
		if err := traced(op.Cmd); err != nil {
			return nil, err
		}
		if op.Cmd != "categories" && op.Cmd != "version" {
			configured = true
		}
	}
	after, err := snapshot(root)
	if err != nil {
		return nil, err
	}
	va, vb := map[string]fileState{}, map[string]fileState{}
	for k, x := range before {
		if strings.HasPrefix(k, "vaultdir") || k == "wd" || c09Kept(k, x) {
			va[k] = x
		}
	}
	for k, x := range after {
		switch {
		case strings.HasPrefix(k, "vaultdir") || strings.HasPrefix(k, "wd") || c09Kept(k, x):
			vb[k] = x
		case k == "home/.config/1pass/1pass.yml", k == "home/.config/1pass/lastcheck":
		case x.mode.IsDir() && (k == "." || k == "home" || k == "home/.config" || k == "home/.config/1pass"):
		default:
			if _, old := before[k]; !old {
				return nil, violate("after %s: %s has been created", opNames(c.Ops), k)
			}
		}
		if !strings.HasPrefix(k, "vaultdir") && x.mode.IsRegular() {
			if secretChar(x.data) != 0 || passChar(x.data) != 0 {
				return nil, violate("after %s: file %s contains decrypted data or the password: %s", opNames(c.Ops), k, show(x.data))
			}
		}
	}
	if d := diffSnap(va, vb); d != "" {
		return nil, violate("after %s: the vault, the working directory or the home directory has changed: %s", opNames(c.Ops), d)
	}
	if st := e.strayFiles(); len(st) > 0 {
		e.cleanStray()
		return nil, violate("after %s: files are left outside the configuration directory: %v", opNames(c.Ops), st)
	}
	o.Sample = opNames(c.Ops)
	return o, nil
}

// c09Kept: files of the home directory that the application has no business with.
func c09Kept(k string, x fileState) bool {
	return strings.HasPrefix(k, "home/") && x.mode.IsRegular() && k != "home/.config/1pass/1pass.yml" && k != "home/.config/1pass/lastcheck"
}

func opNames(ops []c09Op) string {
	var s []string
	for _, o := range ops {
		n := o.Cmd
		if !o.Right {
			n += "(wrong password)"
		}
		s = append(s, n)
	}
	return strings.Join(s, ", ")
}

func init() {
	register(&Property{
		ID:        "C07",
		Technique: "property-based testing of the commands under a pseudo terminal with secrets written in an alphabet nothing else uses",
		Rule: "A case is a vault of 1-3 items whose values, notes and passwords use two reserved alphabets, and one list, overview or details command with the right or a wrong password. The output is searched for letters of the reserved alphabets, " +
			"compared with the reference rendering, and the terminal's echo flag is observed when the password is typed. Non-trivial: every executed command.",
		Subs: []*Sub{mk("cli", 14000, 120000, genC07, runC07)},
	})
	register(&Property{
		ID:        "C08",
		Technique: "property-based testing of the commands over several vaults that share item ids",
		Rule: "A case is 1-3 vaults that share item ids but not titles or passwords, a configured default, a -v choice (absolute, relative, empty, absent), a command, an id (own, of another vault, mangled), -t and a password (of one of the vaults or none). " +
			"Non-trivial: more than one vault exists.",
		Subs: []*Sub{mk("cli", 12000, 100000, genC08, runC08)},
	})
	register(&Property{
		ID:        "C09",
		Technique: "stateful property-based testing: generated command histories with snapshots of the file system before and after",
		Rule: "A case is a vault owned and writable by the user and 1-4 commands or GUI sessions with right and wrong passwords; content, names and modes of the vault, the working directory and the home directory are compared and all written files and shared temporary directories are searched. " +
			"Non-trivial: every history.",
		Subs: []*Sub{mk("cli", 4000, 40000, genC09, runC09)},
	})
	register(&Property{
		ID:        "C12",
		Technique: "property-based testing of vault paths of generated kinds, names and spellings, through the commands and the GUI",
		Rule:      "A case is a directory layout (9 valid kinds, 20 invalid kinds), a generated name, a spelling of the path, given with -v or as the default vault, and a command or the GUI. Non-trivial: every executed command.",
		Assume:    []string{"the user may read the directories concerned; the profile is a regular file, a directory, a link or absent"},
		Subs:      []*Sub{mk("cli", 18000, 120000, genC12, runC12)},
	})
}
