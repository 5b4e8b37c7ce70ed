package main

// C16 (atomic, verified replacement), C17 (nothing outside the cache), C18 (consent) and the download half of C15.
// The application's cache directory is the fixed /tmp/1pass, so these cases run one at a time, as an
// unprivileged user, on a private copy of the program.

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

const cacheDir = "/tmp/1pass"

func fileSum(p string) (string, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return "", err
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:]), nil
}

func bytesSum(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

func copyFile(src, dst string, mode os.FileMode) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	if err := os.WriteFile(dst, b, 0o600); err != nil {
		return err
	}
	return os.Chmod(dst, mode)
}

// installCopy puts a private copy of the program below the user's home.
func (e *Env) installCopy(home string) (exe, sum string, err error) {
	d := filepath.Join(home, "inst")
	if err = os.MkdirAll(d, 0o755); err != nil {
		return
	}
	exe = filepath.Join(d, "1pass")
	if err = copyFile(e.Bin, exe, 0o755); err != nil {
		return
	}
	if err = os.Lchown(exe, e.UID, e.UID); err != nil {
		return
	}
	if err = os.Lchown(d, e.UID, e.UID); err != nil {
		return
	}
	sum, err = fileSum(exe)
	return
}

// lockCache serialises the use of the application's cache directory on this machine.
func lockCache() (func(), error) {
	for i := 0; ; i++ {
		l, err := net.Listen("unix", "@vh-1pass-cache")
		if err == nil {
			return func() { l.Close() }, nil
		}
		if i > 3000 {
			return nil, fmt.Errorf("cache lock: %w", err)
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func wipeCache() error {
	if fi, err := os.Lstat(cacheDir); err != nil {
		return nil
	} else if fi.Mode()&os.ModeSymlink != 0 || !fi.IsDir() {
		return os.Remove(cacheDir)
	}
	forceRemove(cacheDir)
	if _, err := os.Lstat(cacheDir); err == nil {
		return errors.New("cannot remove " + cacheDir)
	}
	return nil
}

type tarEntry struct {
	Name string `json:"name"`
	Type string `json:"type"` // reg, prog (the new program), old (another program text), dir, symlink, hardlink, fifo, char
	Size int    `json:"size,omitempty"`
	Mode int64  `json:"mode,omitempty"`
	Link string `json:"link,omitempty"`
}

type updCase struct {
	Entries  []tarEntry `json:"entries"`
	ProgSize int        `json:"progsize"`
	Seed     int        `json:"seed"`
	Sum      string     `json:"sum"`              // good, goodname, goodnl, star, wrong, flip, empty, blank, short, ofarchive, html, ofold, long
	ArchKind string     `json:"arch,omitempty"`   // "", notgz, nottar, truncated, empty, trailing, flip
	Archive  string     `json:"fa,omitempty"`     // fault while downloading the archive: "", cut, chunkcut, status, close, stallhdr, stallbody, missing, raw, redirect
	Check    string     `json:"fc,omitempty"`     // the same for the checksum
	Tag      string     `json:"tag,omitempty"`    // the release's version, default a newer one
	Tag2     string     `json:"tag2,omitempty"`   // the version after the question, with Second "tag"
	Second   string     `json:"second,omitempty"` // the release list changes after the question: same, older, garbage, empty, close
	FA       int        `json:"fpos,omitempty"`
	Place    string     `json:"place,omitempty"` // "", shm, nowrite, link, foreign
	Mode     int        `json:"mode"`
	Cache    string     `json:"cache,omitempty"` // "", stale, file, link, foreign, deep, partial
	Inject   string     `json:"inject,omitempty"`
	When     int        `json:"when,omitempty"`
	Calls    string     `json:"calls,omitempty"` // the calls that are counted, default injectSet
	KillMs   int        `json:"kill,omitempty"`
	Answer   string     `json:"answer,omitempty"` // default y
	Timeout  int        `json:"timeout,omitempty"`
	Again    bool       `json:"again,omitempty"` // afterwards, a second, undisturbed update
}

// program is a text that runs and identifies itself.
func program(seed, size int, tag string) []byte {
	head := fmt.Sprintf("#!/bin/sh\necho %s-%d\nexit 0\n", tag, seed)
	if size > len(head) {
		head += "#" + string(newDet(uint64(seed), tag).bytes(size-len(head)-1))
	}
	return []byte(head)
}

func (c *updCase) newProg() []byte { return program(c.Seed, c.ProgSize, "new") }

// plain tells whether the archive holds the program once and otherwise only harmless files beside it.
func (c *updCase) plain() bool {
	n := 0
	for _, x := range c.Entries {
		switch {
		case x.Type == "prog" && (x.Name == "1pass" || x.Name == "./1pass"):
			n++
		case x.Type == "dir" && x.Name == "./":
		case x.Type == "reg" && (x.Name == "README" || x.Name == "LICENSE" || x.Name == "./README"):
		default:
			return false
		}
	}
	return n == 1
}

// rel is a path that leads from any directory a few levels deep to the given absolute path.
func upTo(abs string) string { return strings.Repeat("../", 12) + strings.TrimPrefix(abs, "/") }

// subst fills in the places a hostile name may point to.
func subst(s, root string) string {
	s = strings.ReplaceAll(s, "{up}", strings.TrimSuffix(upTo(root), "/"))
	return strings.ReplaceAll(s, "{abs}", root)
}

func (c *updCase) tarball(root string) (gz []byte, contents [][]byte, err error) {
	var tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	for i, x := range c.Entries {
		h := &tar.Header{Name: subst(x.Name, root), Mode: x.Mode, ModTime: time.Unix(1700000000, 0)}
		var data []byte
		switch x.Type {
		case "prog":
			h.Typeflag, data = tar.TypeReg, c.newProg()
		case "old":
			h.Typeflag, data = tar.TypeReg, program(c.Seed, 100+x.Size, "other")
		case "reg":
			h.Typeflag, data = tar.TypeReg, newDet(uint64(c.Seed+i), "reg").bytes(x.Size)
		case "goodsum": // a checksum that fits whatever the archive installs
			m := md5.Sum(program(c.Seed, 100, "other"))
			h.Typeflag, data = tar.TypeReg, []byte(hex.EncodeToString(m[:])+"  1pass\n")
		case "dir":
			h.Typeflag = tar.TypeDir
		case "symlink":
			h.Typeflag, h.Linkname = tar.TypeSymlink, subst(x.Link, root)
		case "hardlink":
			h.Typeflag, h.Linkname = tar.TypeLink, subst(x.Link, root)
		case "fifo":
			h.Typeflag = tar.TypeFifo
		case "char":
			h.Typeflag = tar.TypeChar
		default:
			return nil, nil, fmt.Errorf("entry type %q", x.Type)
		}
		h.Size = int64(len(data))
		if err := tw.WriteHeader(h); err != nil {
			return nil, nil, fmt.Errorf("tar: %w", err)
		}
		if _, err := tw.Write(data); err != nil {
			return nil, nil, err
		}
		if data != nil {
			contents = append(contents, data)
		}
	}
	tw.Close()
	raw := tb.Bytes()
	switch c.ArchKind {
	case "nottar":
		raw = newDet(uint64(c.Seed), "nt").bytes(700)
	case "shorttar":
		n := len(raw) - 1024 // without the end marker
		if n > 0 {
			raw = raw[:c.FA%n]
		}
	}
	var zb bytes.Buffer
	zw := gzip.NewWriter(&zb)
	zw.Write(raw)
	zw.Close()
	gz = zb.Bytes()
	switch c.ArchKind {
	case "notgz":
		gz = raw
	case "empty":
		gz = nil
	case "truncated":
		gz = gz[:c.FA%len(gz)]
	case "flip":
		gz = append([]byte(nil), gz...)
		gz[c.FA%len(gz)] ^= 1 << uint(c.FA%8)
	case "trailing":
		gz = append(append([]byte(nil), gz...), "trailing garbage"...)
	}
	return gz, contents, nil
}

func (c *updCase) sumText(archive []byte, old string) []byte {
	m := md5.Sum(c.newProg())
	good := hex.EncodeToString(m[:])
	switch c.Sum {
	case "good":
		return []byte(good)
	case "goodnl":
		return []byte(good + "\n")
	case "goodname":
		return []byte(good + "  1pass\n")
	case "star":
		return []byte(good + " *1pass\n")
	case "wrong":
		o := md5.Sum([]byte("wrong"))
		return []byte(hex.EncodeToString(o[:]) + "  1pass\n")
	case "flip":
		b := []byte(good)
		p := c.FA % len(b)
		if b[p] == '0' {
			b[p] = '1'
		} else {
			b[p] = '0'
		}
		return append(b, "  1pass\n"...)
	case "empty":
		return []byte{}
	case "blank":
		return []byte(" \n\t\n")
	case "short":
		return []byte(good[:c.FA%len(good)])
	case "long":
		return []byte(good + "0")
	case "ofarchive":
		a := md5.Sum(archive)
		return []byte(hex.EncodeToString(a[:]) + "  1pass.tar.gz\n")
	case "html":
		return []byte("<html><body>" + "Not Found</body></html>")
	case "ofold":
		return []byte(old)
	case "second":
		return []byte("d41d8cd98f00b204e9800998ecf8427e  other\n" + good + "  1pass\n")
	}
	return nil
}

// fields of a published checksum: the first is the digest
func sumDigest(text []byte) string {
	f := strings.Fields(string(text))
	if len(f) == 0 {
		return ""
	}
	return f[0]
}

func fault(body []byte, kind string, pos int) *Resp {
	r := &Resp{Body: body}
	switch kind {
	case "cut":
		r.CutAt = 1 + pos%(len(body)+1)
	case "chunkcut":
		r.Chunked, r.CutAt = true, 1+pos%(len(body)+1)
	case "chunked":
		r.Chunked = true
	case "status":
		r.Status = []int{404, 403, 500, 503}[pos%4]
		r.Body = []byte("error page")
	case "close":
		r.RawReply = []byte{}
	case "raw":
		r.RawReply = []byte("HTTP/1.1 nonsense\r\n\r\n")
	case "stallhdr":
		r.StallHdr = true
	case "stallbody":
		r.StallAt = 1 + pos%(len(body)+1)
	case "redirect":
		r = &Resp{Status: 302, Headers: map[string]string{"Location": "https://nonexistent.invalid/x"}}
	}
	return r
}

type updWorld struct {
	root, home, exe, dir string
	oldSum               string
	old                  []byte
	oldMode              os.FileMode
	gz                   []byte
	sum                  []byte
	contents             [][]byte
	g                    *ghServer
	tag                  string
	cleanup              []func()
	ver                  string
	before               map[string]fileState
	watch                []string
}

func (w *updWorld) close() {
	for i := len(w.cleanup) - 1; i >= 0; i-- {
		w.cleanup[i]()
	}
}

func (e *Env) prepareUpdate(c *updCase) (w *updWorld, err error) {
	w = &updWorld{root: e.CaseDir()}
	defer func() {
		if err != nil {
			w.close()
			w = nil
		}
	}()
	w.ver, err = e.runningVersion()
	if err != nil {
		return
	}
	w.tag = bumpVersion(w.ver, 1)
	if c.Tag != "" {
		w.tag = c.Tag
	}
	to := c.Timeout
	if to == 0 {
		to = 10
	}
	w.home, err = e.home("home", &appConfig{Vault: sp("/none"), Notify: bp(true), Timeout: ip(to), Period: ip(1)})
	if err != nil {
		return
	}
	unlock, err := lockCache()
	if err != nil {
		return
	}
	w.cleanup = append(w.cleanup, unlock, func() { wipeCache() })
	if err = wipeCache(); err != nil {
		return
	}
	e.cleanStray()
	// bystanders: files of the same user that hostile entries aim at
	vict := filepath.Join(w.root, "victims")
	for _, f := range []string{"evil", "sub/evil", "bashrc", "target"} {
		p := filepath.Join(vict, f)
		if err = os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return
		}
		if err = os.WriteFile(p, []byte("bystander "+f), 0o644); err != nil {
			return
		}
	}
	if err = e.chown(vict); err != nil {
		return
	}
	// the program
	w.dir = filepath.Join(w.home, "inst")
	if c.Place == "shm" {
		w.dir = fmt.Sprintf("/dev/shm/vh-%d-%d", os.Getpid(), e.caseNo)
		d := w.dir
		w.cleanup = append(w.cleanup, func() { forceRemove(d) })
	}
	if err = os.MkdirAll(w.dir, 0o755); err != nil {
		return
	}
	w.exe = filepath.Join(w.dir, "1pass")
	mode := os.FileMode(c.Mode)
	if mode == 0 {
		mode = 0o755
	}
	if err = copyFile(e.Bin, w.exe, mode); err != nil {
		return
	}
	if err = os.WriteFile(filepath.Join(w.dir, "neighbour"), []byte("neighbour"), 0o644); err != nil {
		return
	}
	if err = e.chown(w.dir); err != nil {
		return
	}
	switch c.Place {
	case "nowrite":
		if err = os.Chmod(w.dir, 0o555); err != nil {
			return
		}
	case "foreign":
		os.Lchown(w.exe, 0, 0)
		os.Lchown(w.dir, 0, 0)
		os.Chmod(w.exe, 0o755)
	case "link":
		if err = os.Symlink(w.exe, filepath.Join(w.home, "1p")); err != nil {
			return
		}
	}
	w.old, err = os.ReadFile(w.exe)
	if err != nil {
		return
	}
	w.oldSum = bytesSum(w.old)
	fi, err := os.Stat(w.exe)
	if err != nil {
		return
	}
	w.oldMode = fi.Mode()
	// the release
	w.gz, w.contents, err = c.tarball(vict)
	if err != nil {
		return
	}
	om := md5.Sum(w.old)
	w.sum = c.sumText(w.gz, hex.EncodeToString(om[:]))
	// the cache left behind by something earlier
	switch c.Cache {
	case "stale", "deep", "partial":
		os.MkdirAll(cacheDir, 0o700)
		os.WriteFile(cacheDir+"/1pass", program(c.Seed, 300, "stale"), 0o755)
		sm := md5.Sum(program(c.Seed, 300, "stale"))
		os.WriteFile(cacheDir+"/checksum.md5", []byte(hex.EncodeToString(sm[:])+"  1pass\n"), 0o644)
		if c.Cache == "partial" {
			os.WriteFile(cacheDir+"/1pass.tar.gz", w.gz[:len(w.gz)/2], 0o444)
		} else {
			os.WriteFile(cacheDir+"/1pass.tar.gz", []byte("stale"), 0o644)
		}
		if c.Cache == "deep" {
			os.MkdirAll(cacheDir+"/a/b/c", 0o755)
			os.WriteFile(cacheDir+"/a/b/c/x", []byte("x"), 0o644)
			os.Symlink(vict, cacheDir+"/a/link")
			os.Symlink(vict+"/target", cacheDir+"/a/flink")
			os.MkdirAll(cacheDir+"/1pass.d", 0o755)
		}
		err = e.chown(cacheDir)
	case "file":
		err = os.WriteFile(cacheDir, []byte("a file"), 0o644)
		os.Lchown(cacheDir, e.UID, e.UID)
	case "link":
		err = os.Symlink(vict, cacheDir)
		os.Lchown(cacheDir, e.UID, e.UID)
	case "progdir": // a directory where the program would be extracted
		os.MkdirAll(cacheDir+"/1pass/x", 0o755)
		err = e.chown(cacheDir)
	case "foreign":
		os.MkdirAll(cacheDir, 0o755)
		os.WriteFile(cacheDir+"/checksum.md5", []byte("foreign"), 0o644)
	}
	if err != nil {
		return
	}
	// the server
	archName, sumName := "1pass.tar.gz", "checksum.md5"
	assets := []string{archName, sumName}
	if c.Seed%3 == 0 {
		assets = []string{"1pass-linux.md5", "readme.txt", "1pass_linux-amd64.tar.gz"}
		sumName, archName = assets[0], assets[2]
	}
	if c.Archive == "missing" {
		assets = []string{sumName}
	}
	if c.Check == "missing" {
		assets = []string{archName}
	}
	sc := &Scenario{Releases: Resp{Body: relBody(&relSpec{Tag: w.tag, Changelog: "new things", Assets: assets}, &relSpec{Tag: w.ver})}, Files: map[string]*Resp{}}
	for i, n := range assets {
		switch n {
		case archName:
			sc.Files[assetPath(i, n)] = fault(w.gz, c.Archive, c.FA)
		case sumName:
			sc.Files[assetPath(i, n)] = fault(w.sum, c.Check, c.FA)
		}
	}
	switch c.Second {
	case "same":
		sc.Second = &Resp{Body: relBody(&relSpec{Tag: w.ver, Assets: assets})}
	case "tag":
		sc.Second = &Resp{Body: relBody(&relSpec{Tag: c.Tag2, Assets: assets})}
	case "older":
		sc.Second = &Resp{Body: relBody(&relSpec{Tag: bumpVersion(w.ver, -1), Assets: assets})}
	case "garbage":
		sc.Second = &Resp{Body: []byte("[{]")}
	case "empty":
		sc.Second = &Resp{Body: []byte("[]")}
	case "close":
		sc.Second = &Resp{RawReply: []byte{}}
	}
	w.g, err = e.github(sc)
	if err != nil {
		return
	}
	w.watch = []string{w.root}
	if c.Place == "shm" {
		w.watch = append(w.watch, w.dir)
	}
	w.before, err = w.snap()
	return
}

// snap records everything around the program except the program itself and the time stamp.
func (w *updWorld) snap() (map[string]fileState, error) {
	all := map[string]fileState{}
	for _, r := range w.watch {
		err := filepath.Walk(r, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if p == w.exe || p == filepath.Join(w.home, ".config", "1pass", "lastcheck") {
				return nil
			}
			st := fileState{mode: fi.Mode()}
			if fi.Mode().IsRegular() {
				b, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				st.data = bytesSum(b)
			} else if fi.Mode()&os.ModeSymlink != 0 {
				st.data, _ = os.Readlink(p)
			}
			all[p] = st
			return nil
		})
		if err != nil {
			return nil, err
		}
	}
	// the shared temporary directories: names only
	for _, d := range []string{"/tmp", "/var/tmp", "/dev/shm"} {
		ents, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, x := range ents {
			p := filepath.Join(d, x.Name())
			if p == cacheDir {
				continue
			}
			if fi, err := x.Info(); err == nil {
				if st, ok := fi.Sys().(*syscall.Stat_t); ok && int(st.Uid) >= 30000 { // ours
					all[p] = fileState{mode: fi.Mode()}
				}
			}
		}
	}
	return all, nil
}

type updResult struct {
	r     *runResult
	now   []byte
	state string // old, new
	seen  string // what was wrong with the program file for a moment
}

// watchProgram has the kernel record what happens to the program file; the result tells what is wrong with it.
func watchProgram(exe string) func() string {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return func() string { return "" }
	}
	syscall.InotifyAddWatch(fd, filepath.Dir(exe), syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_CREATE|syscall.IN_MODIFY)
	return func() string {
		defer syscall.Close(fd)
		bad := ""
		buf := make([]byte, 1<<16)
		for {
			n, err := syscall.Read(fd, buf)
			if err != nil || n <= 0 {
				return bad
			}
			for at := 0; at+syscall.SizeofInotifyEvent <= n; {
				ev := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[at]))
				name := strings.TrimRight(string(buf[at+syscall.SizeofInotifyEvent:at+syscall.SizeofInotifyEvent+int(ev.Len)]), "\x00")
				at += syscall.SizeofInotifyEvent + int(ev.Len)
				if name != filepath.Base(exe) || bad != "" {
					continue
				}
				switch {
				case ev.Mask&syscall.IN_DELETE != 0:
					bad = "the program file was removed (missing for a moment)"
				case ev.Mask&syscall.IN_MOVED_FROM != 0:
					bad = "the program file was moved away (missing for a moment)"
				case ev.Mask&syscall.IN_CREATE != 0:
					bad = "the program file was created anew (empty for a moment)"
				case ev.Mask&syscall.IN_MODIFY != 0:
					bad = "the program file was written in place (incomplete for a moment)"
				}
			}
		}
	}
}

// update runs the update command and judges the program file.
func (e *Env) update(w *updWorld, c *updCase, what string, disturbed bool) (*updResult, error) {
	ans := c.Answer
	if ans == "" {
		ans = "y\n"
	}
	o := &runOpts{Args: []string{"update"}, Home: w.home, Exe: w.exe, DNS: w.g.dnsAddr, CA: w.g.caFile, UsePipe: true, Stdin: []byte(ans), Limit: 60 * time.Second}
	if c.Place == "link" {
		o.Exe = filepath.Join(w.home, "1p")
	}
	if !disturbed {
		// nothing
	} else if c.Inject != "" {
		log := "/dev/null"
		o.Wrap = []string{"strace", "-f", "-q", "-o", log, "-e", "trace=" + c.calls(), "-e", fmt.Sprintf("inject=%s:%s:when=%d", c.calls(), c.Inject, c.When)}
		o.Env = []string{"GOMAXPROCS=1"}
	}
	o.KillAfter = 0
	if disturbed && c.KillMs > 0 {
		o.KillAfter = time.Duration(c.KillMs) * time.Millisecond / 4
	}
	// watch the program file while the update runs
	sizes := map[int64]bool{int64(len(w.old)): true}
	for _, x := range w.contents {
		sizes[int64(len(x))] = true
	}
	events := watchProgram(w.exe)
	stop := make(chan struct{})
	watched := make(chan string, 1)
	go func() {
		bad := ""
		for {
			select {
			case <-stop:
				watched <- bad
				return
			default:
			}
			var st syscall.Stat_t
			if err := syscall.Stat(w.exe, &st); err != nil {
				bad = "the program file was missing for a moment: " + err.Error()
			} else if !sizes[st.Size] {
				bad = fmt.Sprintf("the program file had %d bytes for a moment", st.Size)
			} else if st.Mode&0o100 == 0 {
				bad = fmt.Sprintf("the program file was not executable for a moment (mode %o)", st.Mode&0o7777)
			}
			time.Sleep(30 * time.Microsecond)
		}
	}()
	r, err := e.run(o)
	close(stop)
	seen := <-watched
	if ev := events(); seen == "" {
		seen = ev
	}
	if err != nil {
		return nil, err
	}
	if r.TimedOut {
		return nil, violate("%s: update does not end: %s", what, show(r.Out))
	}
	res := &updResult{r: r}
	now, rerr := os.ReadFile(w.exe)
	if rerr != nil {
		return nil, violate("%s: the program file is gone: %v; %s", what, rerr, show(r.Out))
	}
	res.now, res.seen = now, seen
	res.state = "new"
	if bytes.Equal(now, w.old) {
		res.state = "old"
	}
	return res, nil
}

// judge demands that the program file is the complete old or the complete, verified new program.
func (e *Env) judge(w *updWorld, c *updCase, res *updResult, what string) error {
	r, now := res.r, res.now
	if res.seen != "" {
		return violate("%s: %s; %s", what, res.seen, show(r.Out))
	}
	fi, err := os.Stat(w.exe)
	if err != nil {
		return err
	}
	success := strings.Contains(r.Out, "updated to version") || r.Exit == 0
	if res.state == "old" {
		if fi.Mode() != w.oldMode {
			return violate("%s: the old program's mode changed from %v to %v; %s", what, w.oldMode, fi.Mode(), show(r.Out))
		}
		if success {
			return violate("%s: success is reported (status %d) but the old program is still installed: %s", what, r.Exit, show(r.Out))
		}
		return nil
	}
	known := false
	for _, x := range w.contents {
		if bytes.Equal(now, x) {
			known = true
		}
	}
	if !known {
		return violate("%s: the program file has %d bytes that are neither the old program nor in the archive (new program %d bytes): %s", what, len(now), c.ProgSize, show(r.Out))
	}
	switch c.Check {
	case "missing", "close", "raw", "redirect", "status", "stallhdr":
		return violate("%s: a program was installed although no checksum could be had: %s", what, show(r.Out))
	}
	m := md5.Sum(now)
	if d := sumDigest(w.sum); hex.EncodeToString(m[:]) != d {
		return violate("%s: a program with MD5 %x was installed, published is %q: %s", what, m, d, show(r.Out))
	}
	if c.Second == "same" || c.Second == "older" {
		return violate("%s: a release that is not newer was installed: %s", what, show(r.Out))
	}
	if fi.Mode().Perm()&0o100 == 0 {
		return violate("%s: the new program is not executable (mode %v): %s", what, fi.Mode(), show(r.Out))
	}
	if bytes.Equal(now, c.newProg()) {
		rr, err := e.run(&runOpts{Args: nil, Home: w.home, Exe: w.exe, UsePipe: true})
		if err != nil {
			return violate("%s: the new program does not start: %v", what, err)
		}
		if rr.Exit != 0 || !strings.Contains(rr.Out, fmt.Sprintf("new-%d", c.Seed)) {
			return violate("%s: the new program does not run: exit %d %s", what, rr.Exit, show(rr.Out))
		}
	}
	return nil
}

// system calls with an effect on files
func (c *updCase) calls() string {
	if c.Calls == "" {
		return injectSet
	}
	return c.Calls
}

const injectSet = "openat,write,pwrite64,rename,renameat,renameat2,unlink,unlinkat,rmdir,mkdir,mkdirat,chmod,fchmod,fchmodat,ftruncate,truncate,link,linkat,symlink,symlinkat,copy_file_range,sendfile,fsync,close,newfstatat,fstat"

func (c *updCase) String() string {
	var p []string
	add := func(k, v string) {
		if v != "" {
			p = append(p, k+"="+v)
		}
	}
	var es []string
	for _, x := range c.Entries {
		es = append(es, fmt.Sprintf("%s:%q(%o)%s", x.Type, x.Name, x.Mode, x.Link))
	}
	add("entries", strings.Join(es, ","))
	add("checksum", c.Sum)
	add("archive", c.ArchKind)
	add("archive-download", c.Archive)
	add("checksum-download", c.Check)
	add("second-list", c.Second)
	add("tag", c.Tag)
	add("tag2", c.Tag2)
	add("place", c.Place)
	add("cache", c.Cache)
	if c.Inject != "" {
		add("inject", fmt.Sprintf("%s@%d %s", c.Inject, c.When, c.Calls))
	}
	if c.KillMs > 0 {
		add("kill", fmt.Sprintf("%.1fms", float64(c.KillMs)/4))
	}
	add("answer", fmt.Sprintf("%q", c.Answer))
	return strings.Join(p, " ")
}

// sound tells whether nothing stands in the way of this update.
func (c *updCase) sound() bool {
	okSum := c.Sum == "good" || c.Sum == "goodnl" || c.Sum == "goodname" || c.Sum == "star"
	okNet := (c.Archive == "" || c.Archive == "chunked") && (c.Check == "" || c.Check == "chunked") && c.Second == ""
	okCache := c.Cache != "foreign"
	okPlace := c.Place == "" || c.Place == "link" || c.Place == "shm"
	return okSum && okNet && okCache && okPlace && c.ArchKind == "" && c.plain()
}

func plainEntries(t *rapid.T, label string) []tarEntry {
	es := []tarEntry{{Name: pick(t, label+".name", "1pass", "1pass", "./1pass"), Type: "prog", Mode: int64(pick(t, label+".mode", 0o755, 0o755, 0o644, 0o700, 0o555, 0o600, 0o400, 0, 0o4755, 0o777))}}
	if chance(t, label+".dot", 25) { // as tar -C dir . makes them
		es = append([]tarEntry{{Name: "./", Type: "dir", Mode: 0o755}}, es...)
	}
	if chance(t, label+".readme", 25) {
		es = append(es, tarEntry{Name: pick(t, label+".rname", "README", "LICENSE", "./README"), Type: "reg", Size: intn(t, label+".rsize", 0, 3000), Mode: 0o644})
	}
	return es
}

func genUpd(t *rapid.T) updCase {
	c := updCase{Entries: plainEntries(t, "e"), Seed: intn(t, "seed", 1, 1000), Sum: pick(t, "sum", "goodname", "good", "goodnl", "star")}
	c.ProgSize = pick(t, "size", 60, 200, 512, 1023, 5000, 40000, 300000)
	c.Mode = pick(t, "mode", 0o755, 0o755, 0o700, 0o555, 0o775)
	return c
}

// ---- C16 ----

func genC16(t *rapid.T) updCase {
	c := genUpd(t)
	c.FA = intn(t, "pos", 0, 400000)
	switch intn(t, "what", 0, 9) {
	case 0, 1:
		c.Sum = pick(t, "badsum", "wrong", "flip", "empty", "blank", "short", "ofarchive", "html", "ofold", "long", "second")
	case 2:
		c.ArchKind = pick(t, "badarch", "notgz", "nottar", "truncated", "truncated", "empty", "flip", "flip", "flip", "shorttar", "shorttar", "trailing")
	case 3:
		c.Archive = pick(t, "fa", "cut", "cut", "chunkcut", "status", "close", "missing", "raw", "redirect", "chunked")
	case 4:
		c.Check = pick(t, "fc", "cut", "chunkcut", "status", "close", "missing", "raw", "redirect", "chunked")
	case 5:
		c.Second = pick(t, "second", "same", "older", "garbage", "empty", "close")
	case 6:
		c.Place = pick(t, "place", "shm", "nowrite", "link", "foreign")
	case 7:
		c.Entries = append(c.Entries, tarEntry{Name: pick(t, "extra", "README", "checksum.md5", "1pass.tar.gz", "LICENSE", "1pass.bak", "./1pass", "a/1pass", "1pass/", "1PASS"), Type: pick(t, "extype", "reg", "old", "goodsum", "dir", "prog"), Size: intn(t, "exsize", 0, 2000), Mode: 0o644})
		if n := len(c.Entries); chance(t, "exfirst", 50) {
			c.Entries[0], c.Entries[n-1] = c.Entries[n-1], c.Entries[0]
		}
	case 8:
		// an archive that brings its own checksum for another program
		c.Entries = []tarEntry{{Name: "1pass", Type: "old", Mode: 0o755, Size: 0}, {Name: pick(t, "cs", "checksum.md5", "./checksum.md5", "../1pass/checksum.md5", "x/../checksum.md5", "/checksum.md5", "../checksum.md5"), Type: "goodsum", Mode: 0o644}}
		if chance(t, "swap", 50) {
			c.Entries[0], c.Entries[1] = c.Entries[1], c.Entries[0]
		}
	}
	if chance(t, "cache", 15) {
		c.Cache = pick(t, "cachek", "stale", "deep", "partial", "file", "link", "progdir", "foreign")
	}
	return c
}

func genC16Crash(t *rapid.T) updCase {
	c := genUpd(t)
	if chance(t, "cache", 20) {
		c.Cache = pick(t, "cachek", "stale", "deep", "partial")
	}
	last := 160
	if chance(t, "otherfs", 40) {
		// the program is on another file system than the cache: it cannot be replaced by a mere rename
		c.Place, last = "shm", 180
	}
	switch intn(t, "how", 0, 3) {
	case 0:
		c.KillMs = intn(t, "ms", 20, 360)
	case 1, 2:
		c.Inject, c.When = "signal=KILL", intn(t, "when", 1, last)
	default:
		c.Inject, c.When = "error="+pick(t, "errno", "EIO", "ENOSPC", "EACCES", "EPERM", "EXDEV", "EROFS", "EINTR"), intn(t, "when", 1, last)
	}
	if c.Inject != "" {
		// calls of one kind, which the last steps are made of
		switch intn(t, "calls", 0, 5) {
		case 0, 1:
			c.Calls, c.When = "rename,renameat,renameat2", pick(t, "when0", 1, 1, 1, 2)
			if chance(t, "fails", 50) {
				c.Inject = "error=" + pick(t, "errno0", "EIO", "ENOSPC", "EACCES", "EPERM", "EROFS", "EBUSY", "EINTR", "EXDEV")
			}
		case 3:
			c.Calls, c.When = "rename,renameat,renameat2,chmod,fchmod,fchmodat,fsync,link,linkat,copy_file_range,sendfile", intn(t, "when1", 1, 4)
		case 2:
			c.Calls, c.When = "unlink,unlinkat,rmdir,mkdir,mkdirat", intn(t, "when2", 1, 10)
		}
	}
	c.Again = chance(t, "again", 40)
	return c
}

var straceOK = 0 // 0 unknown, 1 works, 2 does not

func (e *Env) canStrace() bool {
	if straceOK == 0 {
		straceOK = 2
		cmd := exec.Command("strace", "-f", "-q", "-o", "/dev/null", "-e", "trace=openat", "-e", "inject=openat:signal=KILL:when=1", "/bin/cat", "/dev/null")
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(e.UID), Gid: uint32(e.UID)}, Pdeathsig: syscall.SIGKILL}
		err := cmd.Run()
		var ee *exec.ExitError
		if errors.As(err, &ee) && ee.Sys().(syscall.WaitStatus).Signaled() {
			straceOK = 1
		}
	}
	return straceOK == 1
}

func runC16(e *Env, c *updCase) (*Outcome, error) {
	out := &Outcome{}
	if c.Inject != "" && !e.canStrace() {
		out.label("not run: system call injection is not available")
		return out, nil
	}
	w, err := e.prepareUpdate(c)
	if err != nil {
		if strings.Contains(err.Error(), "tar:") {
			return &Outcome{Labels: []string{"not expressible as an archive"}}, nil
		}
		return nil, err
	}
	defer w.close()
	what := c.String()
	disturbed := c.Inject != "" || c.KillMs > 0
	res, err := e.update(w, c, what, disturbed)
	if err != nil {
		return nil, err
	}
	if err := e.judge(w, c, res, what); err != nil {
		return nil, err
	}
	if !disturbed && c.sound() && res.state != "new" {
		return nil, violate("%s: nothing is wrong with this update but it fails: exit %d %s", what, res.r.Exit, show(res.r.Out))
	}
	if c.Again && res.state == "old" {
		// the old program is usable: it can be updated
		if _, err := e.github(w.g.sc); err != nil {
			return nil, err
		}
		r2, err := e.update(w, c, what+", then a second update", false)
		if err != nil {
			return nil, err
		}
		if err := e.judge(w, c, r2, what+", then a second update"); err != nil {
			return nil, err
		}
		if r2.state != "new" {
			return nil, violate("%s: after the interruption a second update fails: exit %d %s", what, r2.r.Exit, show(r2.r.Out))
		}
		out.label("repeated after the interruption")
	}
	out.Nontrivial = len(w.g.requests()) > 0
	out.Sample = what + " -> " + res.state
	out.label("result: %s", res.state)
	switch {
	case c.KillMs > 0:
		out.label("killed after a time")
	case strings.HasPrefix(c.Inject, "signal"):
		out.label("killed at a system call")
	case c.Inject != "":
		out.label("failing system call")
	case c.sound():
		out.label("sound release")
	default:
		out.label("faulty release or place")
	}
	return out, nil
}

// ---- C17 ----

func genC17(t *rapid.T) updCase {
	c := genUpd(t)
	hostile := func(l string) tarEntry {
		x := tarEntry{Type: pick(t, l+".type", "reg", "reg", "reg", "reg", "old", "dir", "symlink", "symlink", "hardlink", "fifo", "char"), Mode: int64(pick(t, l+".mode", 0o644, 0o755, 0, 0o4777, 0o600)), Size: intn(t, l+".size", 0, 600)}
		x.Name = pick(t, l+".name", "../vh-evil", "../../vh-evil", "../../../vh-evil", "{up}/evil", "{up}/fresh", "{up}/sub/evil", "{up}/target", "{abs}/evil", "{abs}/fresh", "/tmp/vh-evil", "/var/tmp/vh-evil",
			"a/../../vh-evil", "./../vh-evil", "x/y/../../../vh-evil", "..", ".", "../", "1pass/../../vh-evil", "link/evil", "link", "dir/file", "dir", "a\\..\\b", "...", "..vh", "../1pass", "../1pass/x", "1pass", "./1pass",
			"checksum.md5", "1pass.tar.gz", "vh-\u00e9", strings.Repeat("n", 120), "../"+strings.Repeat("d/../", 20)+"vh-evil", "../1passx/evil", "../1pass-evil", "lnk2/../../vh-evil", "-rf", "{up}/fresh/deep/er")
		if x.Type == "symlink" || x.Type == "hardlink" {
			x.Link = pick(t, l+".link", "{abs}", "{abs}/target", "{up}", "{up}/target", "..", "/tmp", "../..", "link", "1pass", "/etc/hostname", ".")
			if chance(t, l+".lname", 60) {
				x.Name = pick(t, l+".ln", "link", "dir", "1pass", "lnk2")
			}
		}
		if x.Type == "dir" && !strings.HasSuffix(x.Name, "/") {
			x.Name += "/"
		}
		return x
	}
	n := intn(t, "n", 0, 4)
	var es []tarEntry
	for i := 0; i < n; i++ {
		es = append(es, hostile(fmt.Sprintf("h%d", i)))
	}
	if chance(t, "through", 20) {
		// a link first, then a file through it
		es = append(es, tarEntry{Name: "link", Type: pick(t, "thrtype", "symlink", "symlink", "hardlink"), Link: pick(t, "thr", "{abs}", "{up}", "{abs}/target"), Mode: 0o777},
			tarEntry{Name: pick(t, "thrname", "link/evil", "link/fresh", "link"), Type: "reg", Size: 20, Mode: 0o644})
	}
	at := intn(t, "at", 0, len(es))
	all := append([]tarEntry{}, es[:at]...)
	all = append(all, c.Entries...)
	c.Entries = append(all, es[at:]...)
	c.Cache = pick(t, "cache", "", "", "", "stale", "deep", "partial", "file", "link", "progdir", "foreign")
	if chance(t, "faulty", 20) {
		c.FA = intn(t, "pos", 0, 400000)
		switch intn(t, "fk", 0, 3) {
		case 0:
			c.Sum = "wrong"
		case 1:
			c.ArchKind = "truncated"
		case 2:
			c.Archive = "cut"
		default:
			c.Check = "cut"
		}
	}
	c.Place = pick(t, "place", "", "", "", "", "link", "nowrite", "shm")
	return c
}

func runC17(e *Env, c *updCase) (*Outcome, error) {
	w, err := e.prepareUpdate(c)
	if err != nil {
		if strings.Contains(err.Error(), "tar:") {
			return &Outcome{Labels: []string{"not expressible as an archive"}}, nil
		}
		return nil, err
	}
	defer w.close()
	what := c.String()
	defer e.cleanStray()
	foreign := ""
	if c.Cache == "foreign" {
		foreign, _ = fileSum(cacheDir + "/checksum.md5")
	}
	res, err := e.update(w, c, what, false)
	if err != nil {
		return nil, err
	}
	after, err := w.snap()
	if err != nil {
		return nil, violate("%s: %v", what, err)
	}
	if d := diffSnap(w.before, after); d != "" {
		return nil, violate("%s: outside the cache something changed: %s; %s", what, d, show(res.r.Out))
	}
	if foreign != "" {
		if now, _ := fileSum(cacheDir + "/checksum.md5"); now != foreign {
			return nil, violate("%s: another user's directory was changed: %s", what, show(res.r.Out))
		}
	}
	if res.r.Exit == 0 {
		if _, err := os.Lstat(cacheDir); err == nil {
			return nil, violate("%s: after a successful update the cache is still there: %v; %s", what, listTree(cacheDir), show(res.r.Out))
		}
	}
	if c.sound() && res.state != "new" {
		return nil, violate("%s: the update fails: exit %d %s", what, res.r.Exit, show(res.r.Out))
	}
	out := &Outcome{Nontrivial: len(c.Entries) > 1 || c.Cache != "", Sample: what + " -> " + res.state}
	out.label("result: %s", res.state)
	if c.Cache != "" {
		out.label("cache before: %s", c.Cache)
	}
	for _, x := range c.Entries {
		if x.Type != "prog" {
			out.label("entry: %s", x.Type)
		}
	}
	return out, nil
}

func listTree(d string) []string {
	var l []string
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		l = append(l, p)
		return nil
	})
	sort.Strings(l)
	return l
}

// ---- C15: downloads ----

func genC15Down(t *rapid.T) updCase {
	c := genUpd(t)
	c.FA = intn(t, "pos", 0, 400000)
	k := []string{"cut", "cut", "chunkcut", "status", "close", "missing", "raw", "redirect"}
	f := pick(t, "fault", k...)
	if chance(t, "stall", 5) {
		f = pick(t, "stallk", "stallhdr", "stallbody", "stallbody")
		c.Timeout = 1
	}
	if rapid.Bool().Draw(t, "which") {
		c.Archive = f
	} else {
		c.Check = f
	}
	switch intn(t, "other", 0, 9) {
	case 0:
		c.Archive, c.Check = "", ""
		c.Second = pick(t, "secondk", "garbage", "empty", "close")
	case 1:
		c.Archive, c.Check = "", ""
		c.Sum = pick(t, "badsum", "wrong", "empty", "blank", "short", "html", "long")
	case 2:
		c.Archive, c.Check = "", ""
		c.ArchKind = pick(t, "badarch", "notgz", "nottar", "truncated", "empty", "flip", "shorttar")
	}
	return c
}

func runC15Down(e *Env, c *updCase) (*Outcome, error) {
	w, err := e.prepareUpdate(c)
	if err != nil {
		return nil, err
	}
	defer w.close()
	what := c.String()
	start := time.Now()
	res, err := e.update(w, c, what, false)
	if err != nil {
		return nil, err
	}
	if res.r.crashed() {
		return nil, violate("%s: update crashes: %s", what, show(res.r.Out))
	}
	if d := time.Since(start); c.Timeout > 0 && d > time.Duration(10*c.Timeout+10)*time.Second {
		return nil, violate("%s: a silent server holds the update for %v, the timeout is %d s", what, d, c.Timeout)
	}
	if res.state != "old" && !c.completeDespite() {
		return nil, violate("%s: the program changed although the server failed: %s", what, show(res.r.Out))
	}
	if res.r.Exit == 0 && res.state == "old" {
		return nil, violate("%s: a failed update ends with status 0: %s", what, show(res.r.Out))
	}
	out := &Outcome{Nontrivial: true, Sample: what}
	out.label("archive %s, checksum %s, second list %s", c.Archive, c.Check, c.Second)
	return out, nil
}

// completeDespite: the whole answer arrived although the connection then ended or stalled
func (c *updCase) completeDespite() bool {
	return c.ArchKind == "flip" || c.ArchKind == "truncated" || c.ArchKind == "shorttar" || c.Check == "cut" || c.Check == "chunkcut" || c.Archive == "cut" || c.Archive == "chunkcut" || c.Archive == "stallbody" || c.Check == "stallbody"
}

// ---- C18 ----

type c18Case struct {
	Upd    updCase `json:"upd"`
	Answer string  `json:"answer"`
	TTY    bool    `json:"tty"`
	Cmd    string  `json:"cmd"` // update, or another command during which nothing may be downloaded
}

var c18No = []string{"", "\n", "n\n", "N\n", "no\n", "yes\n", "YES\n", "Yes\n", "ye\n", "yy\n", "1\n", "true\n", "ok\n", "q\n", "x\n", "t\n", "tak\n", "0\n", "-y\n", "'y'\n", "y?\n", "\u0443\n", "\uff39\n", "ny\n", "yn\n",
	"\ny\n", "\n\ny\n", "n\ny\n", "no\ny\n", "no y\n", "nope y\n", "x\ny\ny\n", " \ny\n", "\x00y\n", "sure\n", "s\u00ed\n", "j\n", "Y!\n", "y.\n", "\x1b\n", "yes"}

func genC18(t *rapid.T) c18Case {
	c := c18Case{Upd: genUpd(t), Cmd: pick(t, "cmd", "update", "update", "update", "update", "update", "categories", "list", "details", "configure", "version", "help")}
	switch intn(t, "kind", 0, 4) {
	case 0:
		c.Answer = pick(t, "yes", "y\n", "Y\n")
	case 1:
		c.Answer = stringOf(t, "rnd", "ynYN es01?\u00fd", 1, 4) + "\n"
	default:
		c.Answer = pick(t, "no", c18No...)
	}
	c.TTY = chance(t, "tty", 25) && !strings.ContainsAny(c.Answer, "\x00\x1b") && c.Answer != "" && strings.HasSuffix(c.Answer, "\n")
	return c
}

func runC18(e *Env, c *c18Case) (*Outcome, error) {
	if c.Upd.Sum == "" {
		c.Upd.Sum = "good"
	}
	w, err := e.prepareUpdate(&c.Upd)
	if err != nil {
		return nil, err
	}
	defer w.close()
	first, _, _ := strings.Cut(c.Answer, "\n")
	yes := first == "y" || first == "Y"
	if strings.EqualFold(strings.TrimSpace(first), "y") && !yes {
		return &Outcome{Labels: []string{"y with blanks (not specified)"}}, nil
	}
	o := &runOpts{Args: []string{c.Cmd}, Home: w.home, Exe: w.exe, DNS: w.g.dnsAddr, CA: w.g.caFile}
	pw := "secret"
	in := c.Answer
	switch c.Cmd {
	case "list", "details":
		v := VaultSpec{Password: pw, Iter: 1, Items: []ItemSpec{{UID: "0123456789ABCDEF0123456789ABCDEF", Cat: "001", Title: sp("Alpha"), Created: 1600000000, Updated: 1600000001}}}
		vdir := filepath.Join(e.CaseDir(), "v")
		if err := Seal(&v).Write(vdir); err != nil {
			return nil, err
		}
		if c.Cmd == "details" {
			o.Args = append(o.Args, v.Items[0].UID)
		}
		o.Args = append(o.Args, "-v", vdir)
		o.Password = &pw
	case "configure":
		in = "n\ny\n10\n1\ny\ny\n"
	}
	if c.TTY && o.Password == nil {
		o.Typed = in
		if strings.Count(in, "\n") == 0 {
			o.Typed += "\n"
		}
	} else if o.Password == nil {
		o.UsePipe, o.Stdin = true, []byte(in)
	}
	r, err := e.run(o)
	if err != nil {
		return nil, err
	}
	what := fmt.Sprintf("%s answered %q", c.Cmd, in)
	if r.TimedOut || r.crashed() {
		return nil, violate("%s: fails: %s", what, show(r.Out))
	}
	now, err := os.ReadFile(w.exe)
	if err != nil {
		return nil, violate("%s: the program is gone: %v", what, err)
	}
	var dl []string
	for _, q := range w.g.requests() {
		if strings.Contains(q, "/dl/") {
			dl = append(dl, q)
		}
	}
	out := &Outcome{Nontrivial: len(w.g.requests()) > 0, Sample: what}
	if c.Cmd == "update" && yes {
		out.label("consent")
		if !bytes.Equal(now, c.Upd.newProg()) || r.Exit != 0 {
			return nil, violate("%s: consent was given but the new program is not installed (status %d): %s", what, r.Exit, show(r.Out))
		}
		return out, nil
	}
	if c.Cmd == "update" {
		out.label("no consent")
	} else {
		out.label("other command")
	}
	if len(dl) > 0 {
		return nil, violate("%s: without consent something was downloaded: %v; %s", what, dl, show(r.Out))
	}
	if !bytes.Equal(now, w.old) {
		return nil, violate("%s: without consent the program changed: %s", what, show(r.Out))
	}
	if _, err := os.Lstat(cacheDir); err == nil {
		return nil, violate("%s: without consent an update was started (%v): %s", what, listTree(cacheDir), show(r.Out))
	}
	if c.Cmd == "update" && r.Exit == 0 {
		return nil, violate("%s: a refused update ends with status 0: %s", what, show(r.Out))
	}
	if c.Cmd == "update" && !strings.Contains(r.Out, w.tag) {
		return nil, violate("%s: the update is not even offered: %s", what, show(r.Out))
	}
	return out, nil
}

func init() {
	assume := []string{"one update at a time on the machine", "the attacker does not change the cache directory while the update runs", "checksums are published in lower case"}
	register(&Property{ID: "C16", Technique: "fault injection: generated releases, download faults, crash points and failing system calls during real updates of a private copy of the program",
		Rule:   "Updates of a private copy of the real program from a fake release server with one generated fault (checksum, archive, download, place, cache, crash instant, failing system call) or none; non-trivial when the update reached the server.",
		Assume: assume,
		Subs:   []*Sub{mk("releases", 320, 6000, genC16, runC16).serial(), mk("crash", 260, 6000, genC16Crash, runC16).serial()}})
	register(&Property{ID: "C17", Technique: "fuzzing of archive structure (names, types, links, modes) during real updates, with a snapshot of everything around the program as oracle",
		Rule:   "Generated archives with hostile entries around the program and generated leftovers in the cache; non-trivial when there is a further entry or a leftover.",
		Assume: assume,
		Subs:   []*Sub{mk("archives", 420, 9000, genC17, runC17).serial()}})
	register(&Property{ID: "C18", Technique: "property-based testing: generated answers and commands against the requests a fake release server sees",
		Rule:   "Generated answers to the update question (pipe and terminal) and other commands and GUI sessions while a newer release is available; non-trivial when the release server was contacted.",
		Assume: assume,
		Subs:   []*Sub{mk("cli", 320, 6000, genC18, runC18).serial(), mk("gui", 60, 1000, genC18GUI, runC18GUI).serial()}})
}
