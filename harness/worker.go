package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
)

type request struct {
	Sub    string          `json:"sub"`
	Replay bool            `json:"replay"`
	Case   json.RawMessage `json:"case"`
}

type response struct {
	Outcome   *Outcome `json:"outcome,omitempty"`
	Violation string   `json:"violation,omitempty"`
	Infra     string   `json:"infra,omitempty"`
}

// workerMain executes cases read from fd 3 and answers on fd 4.
func workerMain(prop, scratch, bin string, uid int) {
	p := registry[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(3)
	}
	syscall.Umask(0o022)
	in := bufio.NewReaderSize(os.NewFile(3, "req"), 1<<20)
	out := os.NewFile(4, "resp")
	// children must not inherit the protocol descriptors
	syscall.CloseOnExec(3)
	syscall.CloseOnExec(4)
	env := &Env{Scratch: scratch, Bin: bin, UID: uid}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			break
		}
		var rq request
		if err := json.Unmarshal(line, &rq); err != nil {
			fmt.Fprintln(os.Stderr, "bad request", err)
			os.Exit(3)
		}
		env.caseNo++
		env.Replay = rq.Replay
		var cb bytes.Buffer
		if json.Compact(&cb, rq.Case) != nil {
			cb.Write(rq.Case)
		}
		h := fnv.New64a()
		h.Write(cb.Bytes())
		env.variant = h.Sum64()
		env.runNo.Store(0)
		resp := runCase(env, p, &rq)
		forceRemove(env.CaseDir())
		b, _ := json.Marshal(resp)
		if _, err := out.Write(append(b, '\n')); err != nil {
			break
		}
	}
	closeServers()
	os.Exit(0)
}

func runCase(env *Env, p *Property, rq *request) (resp *response) {
	resp = &response{}
	s := p.sub(rq.Sub)
	if s == nil {
		resp.Infra = "unknown sub-check " + rq.Sub
		return
	}
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if strings.Contains(st, "mashmb/1pass") {
				resp.Violation = fmt.Sprintf("the code under test panics: %v\n%s", r, trimStack(st))
			} else {
				resp.Infra = fmt.Sprintf("harness panic: %v\n%s", r, st)
			}
			resp.Outcome = nil
		}
	}()
	if err := os.MkdirAll(env.CaseDir(), 0o755); err != nil {
		resp.Infra = err.Error()
		return
	}
	o, err := s.run(env, rq.Case)
	var v *Violation
	switch {
	case err == nil:
		resp.Outcome = o
	case errors.As(err, &v):
		resp.Violation = v.Msg
		if resp.Violation == "" {
			resp.Violation = "violation"
		}
	default:
		resp.Infra = err.Error()
	}
	return
}

func trimStack(st string) string {
	var keep []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "mashmb/1pass") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 6 {
		keep = keep[:6]
	}
	return strings.Join(keep, "\n")
}

// worker is the shard's handle on a worker process.
type worker struct {
	prop, scratch, bin string
	uid                int
	cmd                *exec.Cmd
	req                *os.File
	resp               *bufio.Reader
	respF              *os.File
	errBuf             *tailBuffer
	died               chan error
}

type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 16384 {
		// keep the beginning of a panic message as well as the end
		head := append([]byte(nil), t.b[:6000]...)
		t.b = append(append(head, "\n...\n"...), t.b[len(t.b)-8000:]...)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func (w *worker) start() error {
	self, err := os.Executable()
	if err != nil {
		return err
	}
	forceRemove(w.scratch) // what a worker that died left behind must not influence later cases
	if err := os.MkdirAll(w.scratch, 0o755); err != nil {
		return err
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return err
	}
	sr, sw, err := os.Pipe()
	if err != nil {
		return err
	}
	cmd := exec.Command(self, "worker", "-prop", w.prop, "-scratch", w.scratch, "-bin", w.bin, "-uid", fmt.Sprint(w.uid))
	cmd.ExtraFiles = []*os.File{rr, sw}
	w.errBuf = &tailBuffer{}
	cmd.Stderr = w.errBuf
	cmd.Stdout = w.errBuf
	cmd.WaitDelay = 2 * time.Second
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return err
	}
	rr.Close()
	sw.Close()
	w.cmd, w.req, w.respF = cmd, rw, sr
	w.resp = bufio.NewReaderSize(sr, 1<<20)
	w.died = make(chan error, 1)
	go func() { w.died <- cmd.Wait() }()
	return nil
}

func (w *worker) stop() {
	if w.cmd == nil {
		return
	}
	w.req.Close()
	select {
	case <-w.died:
	case <-time.After(5 * time.Second):
		syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
		<-w.died
	}
	w.respF.Close()
	w.cmd = nil
}

func (w *worker) kill() {
	if w.cmd == nil {
		return
	}
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	<-w.died
	w.req.Close()
	w.respF.Close()
	w.cmd = nil
}

// do runs one case; the end of the worker process is mapped to a violation when the code under test
// ended it (exit with a message, panic on another goroutine) and to an infrastructure error otherwise.
func (w *worker) do(sub string, replay bool, c json.RawMessage, limit time.Duration) *response {
	if w.cmd == nil {
		if err := w.start(); err != nil {
			return &response{Infra: "cannot start worker: " + err.Error()}
		}
	}
	b, _ := json.Marshal(&request{Sub: sub, Replay: replay, Case: c})
	if _, err := w.req.Write(append(b, '\n')); err != nil {
		w.kill()
		return &response{Infra: "worker does not take requests: " + err.Error()}
	}
	type rd struct {
		line []byte
		err  error
	}
	ch := make(chan rd, 1)
	go func() {
		line, err := w.resp.ReadBytes('\n')
		ch <- rd{line, err}
	}()
	select {
	case r := <-ch:
		if r.err == nil {
			var rs response
			if err := json.Unmarshal(r.line, &rs); err != nil {
				return &response{Infra: "bad response: " + err.Error()}
			}
			return &rs
		}
		var werr error
		select {
		case werr = <-w.died:
			w.died <- werr
		case <-time.After(10 * time.Second):
		}
		msg := w.errBuf.String()
		w.kill()
		var ee *exec.ExitError
		if errors.As(werr, &ee) {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Exited() && (ws.ExitStatus() == 1 || (ws.ExitStatus() == 2 && strings.Contains(msg, "mashmb/1pass"))) {
				return &response{Violation: "the code under test ended the process: " + lastLines(msg, 12)}
			}
		}
		return &response{Infra: fmt.Sprintf("worker died (%v, %v): %s", werr, r.err, lastLines(msg, 30))}
	case <-time.After(limit):
		w.kill()
		return &response{Infra: hangMark + fmt.Sprintf(": no result within %v", limit)}
	}
}

const hangMark = "HANG"

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

var _ = io.EOF
