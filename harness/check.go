package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

type checkCfg struct {
	prop, tier, bin, scratch, verif, only string
	seed                                  uint64
	shards                                int
	scale                                 float64
}

// KnownFinding is a genuine defect that is recorded rather than repaired.  It suppresses only a
// violation whose sub-check and message match.
type KnownFinding struct {
	Property string `json:"property"`
	Sub      string `json:"sub"`
	Contains string `json:"message_contains"`
	Replay   string `json:"replay"`
	What     string `json:"what"`
}

func loadKnown(verif string) []KnownFinding {
	var f struct {
		Known []KnownFinding `json:"known"`
	}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err == nil {
		json.Unmarshal(b, &f)
	}
	return f.Known
}

func known(ks []KnownFinding, r *ReplayFile) *KnownFinding {
	for i := range ks {
		k := &ks[i]
		if k.Property == r.Property && k.Sub == r.Sub && k.Contains != "" && strings.Contains(r.Message, k.Contains) {
			return k
		}
	}
	return nil
}

func uidBase() int { return 30000 + (os.Getpid()%2900)*10 }

func checkMain(cfg *checkCfg) int {
	p := registry[cfg.prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", cfg.prop)
		return 2
	}
	start := time.Now()
	base := uidBase()
	ks := loadKnown(cfg.verif)
	evid := filepath.Join(cfg.verif, "evidence", cfg.prop+".json")
	os.MkdirAll(filepath.Dir(evid), 0o755)
	os.Remove(evid)

	deadline := 300
	if cfg.tier == "thorough" {
		deadline = 3600
	}

	// 1. regression cases: minimal failures of defects that have been repaired
	regs, _ := filepath.Glob(filepath.Join(cfg.verif, "corpus", cfg.prop, "*.json"))
	sort.Strings(regs)
	regRun := 0
	if cfg.only != "" {
		regs = nil
	}
	rw := &worker{prop: cfg.prop, scratch: cfg.scratch + "/wr", bin: cfg.bin, uid: base + 9}
	defer func() { rw.stop() }()
	for _, f := range regs {
		r, err := readReplay(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, f, err)
			return 2
		}
		s := p.sub(r.Sub)
		if s == nil {
			fmt.Fprintln(os.Stderr, f, "names an unknown sub-check", r.Sub)
			return 2
		}
		rs := replayCase(rw, s, r.Case, 1)
		regRun++
		if rs.Infra != "" {
			// once more from a fresh worker
			rw.kill()
			rs = replayCase(rw, s, r.Case, 1)
		}
		if rs.Infra != "" {
			fmt.Fprintln(os.Stderr, "regression case", f, rs.Infra)
			return 2
		}
		if rs.Violation != "" {
			// a defect that was repaired is back: believe it if it shows again
			if rs2 := replayCase(rw, s, r.Case, 3); rs2.Violation != "" {
				r.Message = rs2.Violation
				return report(cfg, p, start, r, f, nil, regRun)
			}
		}
	}

	// 2. the search
	type sh struct {
		cmd  *exec.Cmd
		out  string
		done bool
		errb *tailBuffer
	}
	n := cfg.shards
	launch := func(i, attempt int) (*sh, error) {
		self, _ := os.Executable()
		out := fmt.Sprintf("%s/r%d.%d.json", cfg.scratch, i, attempt)
		args := []string{"shard", "-prop", cfg.prop, "-tier", cfg.tier, "-seed", fmt.Sprint(cfg.seed), "-shard", fmt.Sprint(i),
			"-nshards", fmt.Sprint(n), "-uid", fmt.Sprint(base + i), "-bin", cfg.bin, "-scratch", cfg.scratch, "-out", out,
			"-deadline", fmt.Sprint(deadline), "-scale", fmt.Sprint(cfg.scale)}
		if cfg.only != "" {
			args = append(args, "-only", cfg.only)
		}
		c := exec.Command(self, args...)
		s := &sh{cmd: c, out: out, errb: &tailBuffer{}}
		c.Stderr = s.errb
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		return s, c.Start()
	}
	type ev struct {
		i   int
		s   *sh
		rep *ShardReport
		err error
	}
	ch := make(chan ev)
	running := map[int]*sh{}
	start1 := func(i, attempt int) error {
		s, err := launch(i, attempt)
		if err != nil {
			return err
		}
		running[i] = s
		go func() {
			werr := s.cmd.Wait()
			b, err := os.ReadFile(s.out)
			var r ShardReport
			if err == nil {
				err = json.Unmarshal(b, &r)
			}
			if err != nil {
				ch <- ev{i, s, nil, fmt.Errorf("shard %d: %v %v %s", i, werr, err, s.errb.String())}
				return
			}
			ch <- ev{i, s, &r, nil}
		}()
		return nil
	}
	killAll := func() {
		for i, s := range running {
			syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
			<-ch
			delete(running, i)
		}
	}
	for i := 0; i < n; i++ {
		if err := start1(i, 0); err != nil {
			fmt.Fprintln(os.Stderr, err)
			killAll()
			return 2
		}
	}
	var reps []*ShardReport
	attempts := map[int]int{}
	var unrepro []string
	knownSeen := map[string]bool{}
	for len(running) > 0 {
		e := <-ch
		delete(running, e.i)
		msg := ""
		if e.err != nil {
			msg = e.err.Error()
		} else if e.rep.Infra != "" {
			msg = e.rep.Infra
		}
		if msg != "" {
			attempts[e.i]++
			fmt.Fprintf(os.Stderr, "shard %d attempt %d: %s\n", e.i, attempts[e.i], msg)
			if attempts[e.i] > 2 {
				killAll()
				fmt.Fprintln(os.Stderr, "giving up: the machinery failed, nothing is decided")
				return 2
			}
			time.Sleep(time.Second)
			if err := start1(e.i, attempts[e.i]); err != nil {
				killAll()
				return 2
			}
			continue
		}
		reps = append(reps, e.rep)
		if v := e.rep.Violation; v != nil {
			if k := known(ks, v); k != nil {
				if !knownSeen[k.What] {
					knownSeen[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.prop, k.What)
				}
				continue
			}
			s := p.sub(v.Sub)
			// believe it only if it shows again, from a fresh process
			rw.kill()
			n := 6
			if s.Racy {
				n = 60
			}
			rs := replayCase(rw, s, v.Case, n)
			if s.Racy && rs.Violation == "" && len(unrepro) > 0 {
				// seen for the second time, in another history
				rs.Violation = v.Message
			}
			if rs.Violation != "" {
				killAll()
				v.Message = rs.Violation
				return report(cfg, p, start, v, "", reps, regRun)
			}
			if rs.Infra != "" {
				fmt.Fprintln(os.Stderr, "confirmation:", rs.Infra)
			}
			unrepro = append(unrepro, v.Sub+": "+v.Message)
			fmt.Fprintf(os.Stderr, "not reproduced, not counted: %s: %s\ncase: %s\n", v.Sub, v.Message, v.Case)
		}
	}
	total, nt := 0, 0
	for _, r := range reps {
		for _, s := range r.Subs {
			total += s.Run
			nt += s.Nontrivial
		}
	}
	writeEvidence(cfg, p, start, reps, regRun, 0, unrepro)
	fmt.Printf("OK property=%s cases=%d nontrivial=%d regressions=%d wall=%.1fs\n", cfg.prop, total, nt, regRun, time.Since(start).Seconds())
	return 0
}

// replayCase runs a case up to n times and returns the first violation.
func replayCase(w *worker, s *Sub, c json.RawMessage, n int) *response {
	limit := 2 * time.Duration(s.TimeoutS) * time.Second
	var last *response
	for i := 0; i < n; i++ {
		rs := w.do(s.Name, true, c, limit)
		if strings.HasPrefix(rs.Infra, hangMark) {
			if rs2 := w.do(s.Name, true, c, limit); strings.HasPrefix(rs2.Infra, hangMark) {
				return &response{Violation: "no result within " + limit.String() + " (twice)"}
			} else {
				rs = rs2
			}
		}
		if rs.Violation != "" {
			return rs
		}
		last = rs
	}
	return last
}

func report(cfg *checkCfg, p *Property, start time.Time, v *ReplayFile, path string, reps []*ShardReport, regRun int) int {
	if path == "" {
		dir := filepath.Join(cfg.verif, "replays")
		os.MkdirAll(dir, 0o755)
		path = filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d.json", cfg.prop, v.Sub, cfg.seed))
		b, _ := json.MarshalIndent(v, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	writeEvidence(cfg, p, start, reps, regRun, 1, nil)
	fmt.Printf("%s/%s: %s\n", cfg.prop, v.Sub, v.Message)
	fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.prop, path)
	return 1
}

func writeEvidence(cfg *checkCfg, p *Property, start time.Time, reps []*ShardReport, regRun, violations int, unrepro []string) {
	type agg struct {
		Planned    int            `json:"planned"`
		Run        int            `json:"run"`
		Nontrivial int            `json:"nontrivial"`
		Labels     map[string]int `json:"labels,omitempty"`
	}
	subs := map[string]*agg{}
	distinct := map[string]bool{}
	evals := 0
	var samples []map[string]any
	perSub := map[string]int{}
	timedOut := false
	for _, r := range reps {
		for _, h := range r.Hashes {
			distinct[h] = true
		}
		timedOut = timedOut || r.TimedOut
		for name, s := range r.Subs {
			a := subs[name]
			if a == nil {
				a = &agg{Labels: map[string]int{}}
				subs[name] = a
			}
			a.Planned += s.Planned
			a.Run += s.Run
			a.Nontrivial += s.Nontrivial
			evals += s.Run
			for l, c := range s.Labels {
				a.Labels[l] += c
			}
		}
		for name, ss := range r.Samples {
			for _, s := range ss {
				if perSub[name] < 3 {
					perSub[name]++
					m := map[string]any{"sub_check": name}
					if s.Text != "" {
						m["what"] = s.Text
					}
					if len(s.Case) > 0 {
						m["case"] = s.Case
					}
					samples = append(samples, m)
				}
			}
		}
	}
	cov := map[string]any{
		"evaluations":         evals + regRun,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             samples,
		"sub_checks":          subs,
		"regression_cases":    regRun,
		"exhaustive":          false,
	}
	if timedOut {
		cov["note"] = "the time budget ended before all planned cases had been run"
	}
	if len(unrepro) > 0 {
		cov["not_reproduced"] = unrepro
	}
	e := map[string]any{
		"property": cfg.prop, "tier": cfg.tier, "seed": cfg.seed, "level": levelOf(cfg.prop), "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	path := filepath.Join(cfg.verif, "evidence", cfg.prop+".json")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func levelOf(prop string) string {
	switch prop {
	case "C04", "C15", "C16", "C17", "C21":
		return "fault_enumeration"
	}
	return "exploration"
}
