// Framework: properties are lists of sub-checks; a sub-check is a generator of serialisable cases plus
// an executable oracle.  A shard draws cases with rapid and has them executed by a worker process, so
// that a crash, exit or hang of the code under test is an observation and not the end of the search.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"sync/atomic"

	"pgregory.net/rapid"
)

// Outcome is what a case that did not violate the property reports about itself.
type Outcome struct {
	Nontrivial bool     `json:"nontrivial"`
	Labels     []string `json:"labels,omitempty"`
	Sample     string   `json:"sample,omitempty"`
}

func (o *Outcome) label(format string, a ...any) {
	o.Labels = append(o.Labels, fmt.Sprintf(format, a...))
}

// Violation is the only error that counts as a broken property.  Every other error is an error of the
// machinery and makes the check end with an error status instead.
type Violation struct{ Msg string }

func (v *Violation) Error() string { return v.Msg }

func violate(format string, a ...any) error { return &Violation{fmt.Sprintf(format, a...)} }

// Env is what a case may use while it runs.
type Env struct {
	Scratch string // private directory of this worker (mode 0755)
	Bin     string // the application, built from /repo
	UID     int    // unprivileged uid of this worker
	Replay  bool
	caseNo  int
	variant uint64        // drawn from the case: what a run's surroundings are (see circumstances)
	runNo   atomic.Uint32 // runs within the case
}

// CaseDir returns a fresh directory for the running case; the worker removes it afterwards.
func (e *Env) CaseDir() string {
	return fmt.Sprintf("%s/c%d", e.Scratch, e.caseNo)
}

type Sub struct {
	Name     string
	Quick    int // cases over all shards
	Thorough int
	Serial   bool // uses machine-wide state: run by shard 0 only
	TimeoutS int  // limit for one case, seconds
	Racy     bool // depends on the schedule: repeated more often before a violation is given up as not reproduced
	gen      func(t *rapid.T) any
	run      func(e *Env, raw json.RawMessage) (*Outcome, error)
}

type Property struct {
	ID        string
	Technique string
	Rule      string
	Assume    []string
	Subs      []*Sub
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

func propertyIDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func (p *Property) sub(name string) *Sub {
	for _, s := range p.Subs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// mk builds a sub-check from a typed generator and a typed oracle.
func mk[C any](name string, quick, thorough int, gen func(t *rapid.T) C, run func(e *Env, c *C) (*Outcome, error)) *Sub {
	return &Sub{
		Name: name, Quick: quick, Thorough: thorough, TimeoutS: 60,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(e *Env, raw json.RawMessage) (*Outcome, error) {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				return nil, fmt.Errorf("bad case: %w", err)
			}
			return run(e, &c)
		},
	}
}

func (s *Sub) serial() *Sub         { s.Serial = true; return s }
func (s *Sub) timeout(sec int) *Sub { s.TimeoutS = sec; return s }

// ReplayFile is a self-contained failing case.
type ReplayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func readReplay(path string) (*ReplayFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var r ReplayFile
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	return &r, nil
}
