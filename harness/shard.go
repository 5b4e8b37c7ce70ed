package main

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ShardReport is what one shard found.
type ShardReport struct {
	Shard     int                    `json:"shard"`
	Violation *ReplayFile            `json:"violation,omitempty"`
	Infra     string                 `json:"infra,omitempty"`
	Subs      map[string]*SubStats   `json:"subs"`
	Hashes    []string               `json:"hashes"` // distinct non-trivial cases
	Samples   map[string][]SampleRec `json:"samples"`
	WallS     float64                `json:"wall_s"`
	TimedOut  bool                   `json:"timed_out"`
}

type SubStats struct {
	Planned    int            `json:"planned"`
	Run        int            `json:"run"`
	Nontrivial int            `json:"nontrivial"`
	Labels     map[string]int `json:"labels"`
	WallS      float64        `json:"wall_s"`
}

type SampleRec struct {
	Text string          `json:"text,omitempty"`
	Case json.RawMessage `json:"case,omitempty"`
}

// quietTB lets rapid run outside "go test".
type quietTB struct {
	failed bool
	log    []string
}

func (q *quietTB) Helper()                   {}
func (q *quietTB) Name() string              { return "vh" }
func (q *quietTB) Logf(f string, a ...any)   { q.log = append(q.log, fmt.Sprintf(f, a...)) }
func (q *quietTB) Log(a ...any)              { q.log = append(q.log, fmt.Sprint(a...)) }
func (q *quietTB) Skipf(f string, a ...any)  { q.SkipNow() }
func (q *quietTB) Skip(a ...any)             { q.SkipNow() }
func (q *quietTB) SkipNow()                  { runtime.Goexit() }
func (q *quietTB) Errorf(f string, a ...any) { q.Logf(f, a...); q.failed = true }
func (q *quietTB) Error(a ...any)            { q.Log(a...); q.failed = true }
func (q *quietTB) Fatalf(f string, a ...any) { q.Errorf(f, a...); q.FailNow() }
func (q *quietTB) Fatal(a ...any)            { q.Error(a...); q.FailNow() }
func (q *quietTB) FailNow()                  { q.failed = true; runtime.Goexit() }
func (q *quietTB) Fail()                     { q.failed = true }
func (q *quietTB) Failed() bool              { return q.failed }

func mix(seed uint64, parts ...string) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s", seed, strings.Join(parts, "/"))))
	var v uint64
	for i := 0; i < 8; i++ {
		v = v<<8 | uint64(h[i])
	}
	if v == 0 {
		v = 1
	}
	return v
}

type shardCfg struct {
	prop, scratch, bin, out, tier string
	shard, nshards, uid           int
	seed                          uint64
	deadlineS                     int
	only                          string
	scale                         float64
}

func shardMain(cfg *shardCfg) {
	p := registry[cfg.prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", cfg.prop)
		os.Exit(3)
	}
	start := time.Now()
	deadline := start.Add(time.Duration(cfg.deadlineS) * time.Second)
	rep := &ShardReport{Shard: cfg.shard, Subs: map[string]*SubStats{}, Samples: map[string][]SampleRec{}}
	w := &worker{prop: cfg.prop, scratch: fmt.Sprintf("%s/w%d", cfg.scratch, cfg.shard), bin: cfg.bin, uid: cfg.uid}
	defer w.stop()
	seen := map[string]bool{}
	for _, s := range p.Subs {
		if cfg.only != "" && s.Name != cfg.only {
			continue
		}
		total := s.Quick
		if cfg.tier == "thorough" {
			total = s.Thorough
		}
		if cfg.scale > 0 {
			total = int(float64(total)*cfg.scale + 0.999)
		}
		n := total / cfg.nshards
		if cfg.shard < total%cfg.nshards {
			n++
		}
		if s.Serial {
			n = 0
			if cfg.shard == 0 {
				n = total
			}
		}
		if n == 0 {
			continue
		}
		st := &SubStats{Planned: n, Labels: map[string]int{}}
		rep.Subs[s.Name] = st
		t0 := time.Now()
		seed := mix(cfg.seed, cfg.prop, s.Name, fmt.Sprint(cfg.shard))
		viol, infra := runSub(w, s, n, seed, deadline, st, rep, seen)
		st.WallS = time.Since(t0).Seconds()
		if infra != "" {
			rep.Infra = s.Name + ": " + infra
			break
		}
		if viol != nil {
			viol.Property, viol.Sub, viol.Seed = cfg.prop, s.Name, cfg.seed
			rep.Violation = viol
			break
		}
		if time.Now().After(deadline) {
			rep.TimedOut = true
		}
	}
	for h := range seen {
		rep.Hashes = append(rep.Hashes, h)
	}
	rep.WallS = time.Since(start).Seconds()
	b, _ := json.Marshal(rep)
	if err := os.WriteFile(cfg.out+".tmp", b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Rename(cfg.out+".tmp", cfg.out)
}

func runSub(w *worker, s *Sub, n int, seed uint64, deadline time.Time, st *SubStats, rep *ShardReport, seen map[string]bool) (*ReplayFile, string) {
	flag.Set("rapid.checks", fmt.Sprint(n))
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", shrinkTime().String())
	var fail *ReplayFile
	var infra string
	limit := time.Duration(s.TimeoutS) * time.Second
	hangs := 0
	var shrinkUntil time.Time
	prop := func(t *rapid.T) {
		if infra != "" {
			return
		}
		c := s.gen(t)
		if fail == nil && time.Now().After(deadline) {
			rep.TimedOut = true
			return
		}
		raw, err := json.Marshal(c)
		if err != nil {
			infra = "cannot serialise case: " + err.Error()
			return
		}
		if fail != nil && time.Now().After(shrinkUntil) && string(raw) != string(fail.Case) {
			return // minimisation budget used up: keep what we have
		}
		rs := w.do(s.Name, false, raw, limit)
		if strings.HasPrefix(rs.Infra, hangMark) {
			// once more from a fresh process, with a longer limit, before believing it
			hangs++
			if rs2 := w.do(s.Name, true, raw, 2*limit); strings.HasPrefix(rs2.Infra, hangMark) {
				rs = &response{Violation: "no result within " + (2 * limit).String() + " (twice)"}
			} else {
				rs = rs2
			}
		}
		switch {
		case rs.Infra != "":
			infra = rs.Infra + "\ncase: " + string(raw)
		case rs.Violation != "":
			if fail == nil {
				shrinkUntil = time.Now().Add(shrinkTime() + 5*time.Second)
			}
			fail = &ReplayFile{Message: rs.Violation, Case: raw}
			t.Fatalf("violation")
		default:
			if fail != nil {
				return // minimisation
			}
			st.Run++
			o := rs.Outcome
			if o == nil {
				o = &Outcome{}
			}
			for _, l := range o.Labels {
				st.Labels[l]++
			}
			if o.Nontrivial {
				st.Nontrivial++
				h := sha256.Sum256(append([]byte(s.Name+":"), raw...))
				seen[fmt.Sprintf("%x", h[:8])] = true
				if len(rep.Samples[s.Name]) < 2 && st.Nontrivial%7 == 3 {
					sr := SampleRec{Text: o.Sample}
					if len(raw) < 3000 {
						sr.Case = raw
					}
					rep.Samples[s.Name] = append(rep.Samples[s.Name], sr)
				}
			}
		}
	}
	tb := &quietTB{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, prop)
	}()
	<-done
	if infra == "" && fail == nil && tb.failed {
		infra = "generator: " + strings.Join(tb.log, "\n")
	}
	if fail != nil {
		return fail, ""
	}
	return nil, infra
}

// shrinkTime is how long a failing case is minimised (VERIF_SHRINK_S, in seconds, overrides it).
func shrinkTime() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("VERIF_SHRINK_S")); err == nil && n >= 0 {
		return time.Duration(n+1) * time.Second
	}
	return 25 * time.Second
}
