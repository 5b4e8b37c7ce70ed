package main

// An independent writer of the OPVault format, from its published description.

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Cats are the 18 known categories: code -> name.
var Cats = map[string]string{
	"001": "Login", "002": "Credit Card", "003": "Secure Note", "004": "Identity", "005": "Password", "099": "Tombstone",
	"100": "Software License", "101": "Bank Account", "102": "Database", "103": "Driver License", "104": "Outdoor License",
	"105": "Membership", "106": "Passport", "107": "Rewards", "108": "SSN", "109": "Router", "110": "Server", "111": "Email",
}

var catCodes = func() []string {
	var c []string
	for k := range Cats {
		c = append(c, k)
	}
	sort.Strings(c)
	return c
}()

// KV is an ordered JSON object member.
type KV struct {
	K string          `json:"k"`
	V json.RawMessage `json:"v"`
}

// FieldSpec is a section field; V nil means there is no value.
type FieldSpec struct {
	Kind  string            `json:"kind"`
	Name  string            `json:"name,omitempty"`
	Label string            `json:"label"`
	Null  bool              `json:"null,omitempty"` // value present but null
	Str   *string           `json:"str,omitempty"`
	Num   *int64            `json:"num,omitempty"`
	Addr  map[string]string `json:"addr,omitempty"`
}

type SectionSpec struct {
	Name     string      `json:"name"`
	Title    *string     `json:"title,omitempty"`
	NoFields bool        `json:"nofields,omitempty"` // the "fields" member is absent
	Fields   []FieldSpec `json:"fields,omitempty"`
}

// FormSpec is a login-form field; nil members are absent.
type FormSpec struct {
	Name        *string `json:"name,omitempty"`
	Value       *string `json:"value,omitempty"`
	Type        string  `json:"type"`
	Designation string  `json:"designation,omitempty"`
}

type ItemSpec struct {
	UID      string        `json:"uid"`
	Cat      string        `json:"cat"`
	Trashed  int           `json:"trashed"` // 0 absent, 1 false, 2 true
	Created  int64         `json:"created"`
	Updated  int64         `json:"updated"`
	Title    *string       `json:"title,omitempty"`
	URL      *string       `json:"url,omitempty"`
	Notes    *string       `json:"notes,omitempty"`
	Form     []FormSpec    `json:"form,omitempty"`
	HasForm  bool          `json:"hasform,omitempty"`
	Sections []SectionSpec `json:"sections,omitempty"`
	HasSect  bool          `json:"hassect,omitempty"`
	Extra    int           `json:"extra,omitempty"` // bit set of additional members real vaults have
}

func (it *ItemSpec) IsTrashed() bool  { return it.Trashed == 2 }
func (it *ItemSpec) TitleStr() string { return deref(it.Title) }

type VaultSpec struct {
	Password string     `json:"password"`
	Salt     []byte     `json:"salt"`
	Iter     int        `json:"iter"`
	Seed     uint64     `json:"seed"`
	Items    []ItemSpec `json:"items"`
	Empty    string     `json:"empty,omitempty"`  // band letters that exist but hold no item
	Escape   int        `json:"escape,omitempty"` // JSON text style: 0 plain, 1 ASCII-only, 2 with "\/"
	Pretty   bool       `json:"pretty,omitempty"` // white space inside the band objects
	Hint     *string    `json:"hint,omitempty"`   // password hint of the profile
	Outer    bool       `json:"outer,omitempty"`  // the outer JSON is written in the style of Escape, too
	Files    int        `json:"files,omitempty"`  // bit set: 1 other files of real vaults, 2 band files are links, 4 the profile is a link, 8 read-only
}

func deref(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

func sp(s string) *string { return &s }

// detRand is a deterministic byte stream.
type detRand struct {
	seed [32]byte
	ctr  uint64
	buf  []byte
}

func newDet(seed uint64, tag string) *detRand {
	return &detRand{seed: sha256.Sum256([]byte(fmt.Sprintf("%d|%s", seed, tag)))}
}

func (d *detRand) bytes(n int) []byte {
	for len(d.buf) < n {
		var c [40]byte
		copy(c[:], d.seed[:])
		binary.LittleEndian.PutUint64(c[32:], d.ctr)
		d.ctr++
		h := sha256.Sum256(c[:])
		d.buf = append(d.buf, h[:]...)
	}
	out := append([]byte(nil), d.buf[:n]...)
	d.buf = d.buf[n:]
	return out
}

func cbcEnc(key, iv, plain []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(plain))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, plain)
	return out
}

func hmac256(key, msg []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(msg)
	return h.Sum(nil)
}

// opdata seals plain in the opdata01 envelope.
func opdata(plain, key, mac []byte, r *detRand) []byte {
	pad := 16 - len(plain)%16
	msg := append(r.bytes(pad), plain...)
	iv := r.bytes(16)
	out := []byte("opdata01")
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], uint64(len(plain)))
	out = append(out, l[:]...)
	out = append(out, iv...)
	out = append(out, cbcEnc(key, iv, msg)...)
	return append(out, hmac256(mac, out)...)
}

type vaultKeys struct {
	derKey, derMac, masKey, masMac, ovKey, ovMac []byte
}

// RawItem is an item as it is stored.
type RawItemJ struct {
	UID  string
	Memb map[string]any // members of the stored object
	O    []byte         // decoded blobs
	D    []byte
	K    []byte
}

// Sealed is an encrypted vault, before it is written.
type Sealed struct {
	Spec    *VaultSpec
	Profile map[string]any
	Items   []*RawItemJ
	MasterB []byte
	OverB   []byte
	keys    vaultKeys
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func jsonText(v any, style int) []byte {
	var sb strings.Builder
	enc := json.NewEncoder(&sb)
	enc.SetEscapeHTML(style == 2)
	if err := enc.Encode(v); err != nil {
		panic(err)
	}
	s := strings.TrimSuffix(sb.String(), "\n")
	if style == 1 {
		var o strings.Builder
		for _, r := range s {
			switch {
			case r < 0x80:
				o.WriteRune(r)
			case r < 0x10000:
				fmt.Fprintf(&o, "\\u%04x", r)
			default:
				r -= 0x10000
				fmt.Fprintf(&o, "\\u%04x\\u%04x", 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			}
		}
		return []byte(o.String())
	}
	if style == 2 {
		s = strings.ReplaceAll(s, "/", "\\/")
	}
	return []byte(s)
}

func (it *ItemSpec) overviewJSON(style int) []byte {
	m := map[string]any{}
	if it.Title != nil {
		m["title"] = *it.Title
	}
	if it.URL != nil {
		m["url"] = *it.URL
	}
	if it.Extra&1 != 0 {
		m["ainfo"] = "someone"
		m["ps"] = 42
		m["tags"] = []string{"a", "b"}
	}
	if it.Extra&2 != 0 {
		m["URLs"] = []any{map[string]any{"u": "http://other.example.org"}}
		m["pbe"] = 12.5
		m["pgrng"] = true
	}
	return jsonText(m, style)
}

func (it *ItemSpec) detailsJSON(style int) []byte {
	m := map[string]any{}
	if it.Notes != nil {
		m["notesPlain"] = *it.Notes
	}
	if it.HasForm || len(it.Form) > 0 {
		fs := []any{}
		for _, f := range it.Form {
			o := map[string]any{"type": f.Type}
			if f.Name != nil {
				o["name"] = *f.Name
			}
			if f.Value != nil {
				o["value"] = *f.Value
			}
			if f.Designation != "" {
				o["designation"] = f.Designation
			}
			fs = append(fs, o)
		}
		m["fields"] = fs
	}
	if it.HasSect || len(it.Sections) > 0 {
		ss := []any{}
		for _, s := range it.Sections {
			o := map[string]any{"name": s.Name}
			if s.Title != nil {
				o["title"] = *s.Title
			}
			if !s.NoFields {
				fs := []any{}
				for _, f := range s.Fields {
					x := map[string]any{"k": f.Kind, "t": f.Label, "n": f.Name}
					switch {
					case f.Null:
						x["v"] = nil
					case f.Str != nil:
						x["v"] = *f.Str
					case f.Num != nil:
						x["v"] = *f.Num
					case f.Addr != nil:
						x["v"] = f.Addr
					}
					if it.Extra&4 != 0 {
						x["a"] = map[string]any{"guarded": "yes"}
						x["inputTraits"] = map[string]any{"autocapitalization": "Words"}
					}
					fs = append(fs, x)
				}
				o["fields"] = fs
			}
			ss = append(ss, o)
		}
		m["sections"] = ss
	}
	if it.Extra&8 != 0 {
		m["htmlForm"] = map[string]any{"htmlAction": "/login", "htmlMethod": "post"}
		m["passwordHistory"] = []any{map[string]any{"value": "hist", "time": 1400000000}}
	}
	return jsonText(m, style)
}

// Seal encrypts a vault.
func Seal(v *VaultSpec) *Sealed {
	r := newDet(v.Seed, "vault")
	s := &Sealed{Spec: v}
	der, err := pbkdf2.Key(sha512.New, rawPw(v.Password), v.Salt, v.Iter, 64)
	if err != nil {
		panic(err)
	}
	k := &s.keys
	k.derKey, k.derMac = der[:32], der[32:]
	mas := r.bytes(256)
	ov := r.bytes(64)
	mh, oh := sha512.Sum512(mas), sha512.Sum512(ov)
	k.masKey, k.masMac = append([]byte(nil), mh[:32]...), append([]byte(nil), mh[32:]...)
	k.ovKey, k.ovMac = append([]byte(nil), oh[:32]...), append([]byte(nil), oh[32:]...)
	s.MasterB = opdata(mas, k.derKey, k.derMac, r)
	s.OverB = opdata(ov, k.derKey, k.derMac, r)
	s.Profile = map[string]any{
		"lastUpdatedBy": "Dropbox", "updatedAt": 1370323483, "profileName": "default", "salt": b64(v.Salt),
		"passwordHint": "a hint", "masterKey": b64(s.MasterB), "iterations": v.Iter, "uuid": "2B894A18997C4638BACC55F2D56A4890",
		"overviewKey": b64(s.OverB), "createdAt": 1373753414,
	}
	if v.Hint != nil {
		s.Profile["passwordHint"] = *v.Hint
	}
	for i := range v.Items {
		s.Items = append(s.Items, s.sealItem(&v.Items[i], newDet(v.Seed, fmt.Sprintf("item%d/%s", i, v.Items[i].UID))))
	}
	return s
}

func (s *Sealed) sealItem(it *ItemSpec, r *detRand) *RawItemJ {
	k := &s.keys
	ik := r.bytes(64)
	iv := r.bytes(16)
	kb := append(append([]byte(nil), iv...), cbcEnc(k.masKey, iv, ik)...)
	kb = append(kb, hmac256(k.masMac, kb)...)
	ri := &RawItemJ{UID: it.UID}
	ri.O = opdata(it.overviewJSON(s.Spec.Escape), k.ovKey, k.ovMac, r)
	ri.D = opdata(it.detailsJSON(s.Spec.Escape), ik[:32], ik[32:], r)
	ri.K = kb
	ri.Memb = map[string]any{
		"uuid": it.UID, "category": it.Cat, "created": it.Created, "updated": it.Updated, "tx": 1373753421,
	}
	if it.Trashed > 0 {
		ri.Memb["trashed"] = it.Trashed == 2
	}
	if it.Extra&16 != 0 {
		ri.Memb["fave"] = 1234567
		ri.Memb["folder"] = "AC78552EC06A4F65BEBF58B4D9E32080"
	}
	ri.refresh(k.ovMac)
	return ri
}

// refresh re-encodes the blobs and recomputes the item's own MAC.
func (ri *RawItemJ) refresh(ovMac []byte) {
	ri.Memb["o"], ri.Memb["d"], ri.Memb["k"] = b64(ri.O), b64(ri.D), b64(ri.K)
	delete(ri.Memb, "hmac")
	var keys []string
	for k := range ri.Memb {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		sb.WriteString(k)
		switch x := ri.Memb[k].(type) {
		case bool:
			if x {
				sb.WriteString("1")
			} else {
				sb.WriteString("0")
			}
		default:
			fmt.Fprint(&sb, x)
		}
	}
	ri.Memb["hmac"] = b64(hmac256(ovMac, []byte(sb.String())))
}

func (s *Sealed) outer() int {
	if s.Spec.Outer {
		return s.Spec.Escape
	}
	return 2
}

func (s *Sealed) ProfileText() []byte {
	return []byte("var profile=" + string(jsonText(s.Profile, s.outer())) + ";")
}

// Bands returns the band files: name -> text.
func (s *Sealed) Bands() map[string]string {
	groups := map[string][]string{}
	for _, l := range strings.Split(s.Spec.Empty, "") {
		if l != "" {
			groups[strings.ToUpper(l)] = nil
		}
	}
	for _, ri := range s.Items {
		b := strings.ToUpper(ri.UID[:1])
		val := string(jsonText(ri.Memb, s.outer()))
		key := string(jsonText(ri.UID, 0))
		sep, post := "", ""
		if s.Spec.Pretty {
			sep, post = "\n  ", "\n"
		}
		groups[b] = append(groups[b], sep+key+":"+sep+val+post)
	}
	out := map[string]string{}
	for b, m := range groups {
		out["band_"+b+".js"] = "ld({" + strings.Join(m, ",") + "});"
	}
	return out
}

// Write stores the vault at dir (created).
func (s *Sealed) Write(dir string) error {
	d := filepath.Join(dir, "default")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return err
	}
	mode := os.FileMode(0o644)
	if s.Spec.Files&8 != 0 {
		mode = 0o444
	}
	store := filepath.Join(dir, "store")
	if s.Spec.Files&6 != 0 {
		if err := os.MkdirAll(store, 0o755); err != nil {
			return err
		}
	}
	if s.Spec.Files&4 != 0 {
		if err := os.WriteFile(filepath.Join(store, "the profile"), s.ProfileText(), mode); err != nil {
			return err
		}
		if err := os.Symlink("../store/the profile", filepath.Join(d, "profile.js")); err != nil {
			return err
		}
	} else if err := os.WriteFile(filepath.Join(d, "profile.js"), s.ProfileText(), mode); err != nil {
		return err
	}
	if s.Spec.Files&1 != 0 {
		for n, c := range map[string]string{
			"folders.js": `loadFolders({"AC78552EC06A4F65BEBF58B4D9E32080":{"created":1373754128,"overview":"b3BkYXRhMDE=","tx":1373754523,"updated":1373754134,"uuid":"AC78552EC06A4F65BEBF58B4D9E32080"}});`,
			"2A632FDD32F5445E91EB5636C7580447_23F6167DC1FB457A8DE7033ACDCD06DB.attachment": "OPCLDAT\x01\x00\xff",
			".DS_Store": "\x00\x00\x00\x01Bud1", "Icon\r": "", "1password.html": "<html>",
		} {
			if err := os.WriteFile(filepath.Join(d, n), []byte(c), mode); err != nil {
				return err
			}
		}
		if err := os.MkdirAll(filepath.Join(dir, "backup"), 0o755); err != nil {
			return err
		}
	}
	return s.WriteBands(dir)
}

// rewrite replaces the vault at dir by this one.
func (s *Sealed) rewrite(dir string) error {
	if err := os.RemoveAll(filepath.Join(dir, "default")); err != nil {
		return err
	}
	return s.Write(dir)
}

// WriteBands replaces all band files.
func (s *Sealed) WriteBands(dir string) error {
	d := filepath.Join(dir, "default")
	ents, err := os.ReadDir(d)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if strings.HasPrefix(e.Name(), "band_") {
			if err := os.Remove(filepath.Join(d, e.Name())); err != nil {
				return err
			}
		}
	}
	for name, text := range s.Bands() {
		path, mode := filepath.Join(d, name), os.FileMode(0o644)
		if s.Spec.Files&8 != 0 {
			mode = 0o444
		}
		if s.Spec.Files&2 != 0 {
			path = filepath.Join(dir, "store", "the "+name)
			if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
				return err
			}
			if err := os.Symlink("../store/the "+name, filepath.Join(d, name)); err != nil {
				return err
			}
		}
		if err := os.WriteFile(path, []byte(text), mode); err != nil {
			return err
		}
	}
	return nil
}

// rekeyed is the vault sealed anew with another password, salt, number of iterations and other keys, or only some of these.
func rekeyed(v VaultSpec, pw string, how int) VaultSpec {
	v.Password = pw
	if how != 1 && how != 2 {
		v.Seed += 7
	}
	if how != 2 && how != 3 {
		v.Salt = append([]byte("n"), v.Salt...)
		if len(v.Salt) > 64 {
			v.Salt = v.Salt[:64]
		}
	}
	if how != 1 && how != 3 {
		v.Iter++
	}
	return v
}
