package main

import (
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/mewmew/typast/internal/verifsim/gen"
	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/internal/verifsim/simlog"
	"github.com/mewmew/typast/internal/verifsim/simos"
	"github.com/mewmew/typast/internal/verifsim/simtime"
)

// Violation is a broken property.
type Violation struct {
	Kind string // stable class of the violation, used when minimising
	Msg  string
	Key  string // what known findings are matched against
}

// Run is one simulated run.
type Run struct {
	Prop    string
	Tier    string
	Viol    *Violation
	Trace   []string
	Tracing bool

	Count     map[string]int64 // injected faults and other measured counts
	Distinct  map[string][]uint64
	Evals     int64    // executions judged in this run
	Keys      []uint64 // identity of each non-trivial execution
	Sample    string
	SimNanos  int64
	SimSteps  uint64
	Undecided string // the run ended early without a verdict, and why

	// for runs that are one of a family of fault cases
	Ops int // system calls of the fault-free run
}

func (r *Run) tracef(format string, v ...any) {
	if r.Tracing {
		s := fmt.Sprintf(format, v...)
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		r.Trace = append(r.Trace, s)
	}
}

func (r *Run) count(name string, n int64) {
	if n != 0 {
		r.Count[name] += n
	}
}

func (r *Run) distinct(measure string, h uint64) {
	r.Distinct[measure] = append(r.Distinct[measure], h)
}

// stop ends a run from within the harness.
type stop struct{ v *Violation }

// fail records the violation and ends the run.
func (r *Run) fail(kind, format string, v ...any) {
	msg := fmt.Sprintf(format, v...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	if r.Viol == nil {
		r.Viol = &Violation{Kind: kind, Msg: msg}
	}
	panic(stop{r.Viol})
}

// Family says which executions a seed stands for.
type Property struct {
	ID   string
	Run  func(r *Run)
	Race bool // a part of the seeds runs under the race detector
	// Cases returns the fault streams to run in addition, given the base run.
	Cases func(base *Run, seed uint64, tier string) [][]uint64
	// number of seeds by tier
	Quick, Thorough int
	RaceQuick       int
	RaceThorough    int
	Rule            string
	Level           string
	Real, Stub      []string
	Measures        string
	Probes          []probe
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

// reset puts every package of the program under test, and the simulated
// environment, into its initial state.
func reset(c *sim.Choices) {
	sim.Begin(c)
	resetWorld()
}

// resetWorld does so in the middle of a run.
func resetWorld() {
	simtime.SimReset()
	simlog.SimReset()
	simos.M = nil
	gen.ResetAll()
}

// execute runs one simulated run with the given choices.
func execute(p *Property, c *sim.Choices, tier string, tracing bool) (r *Run) {
	r = &Run{Prop: p.ID, Tier: tier, Count: map[string]int64{}, Distinct: map[string][]uint64{}, Tracing: tracing}
	defer func() {
		r.SimSteps += sim.Steps()
		r.SimNanos += int64(simtime.Elapsed())
		if x := recover(); x != nil {
			if s, ok := x.(stop); ok {
				r.Viol = s.v
				if sim.Trouble != "" {
					r.Viol = nil
				}
				return
			}
			if _, ok := x.(sim.UnsupportedError); ok {
				return
			}
			panic(x)
		}
	}()
	races := sim.RaceErrors()
	reset(c)
	p.Run(r)
	if n := sim.RaceErrors(); n > races && r.Viol == nil {
		r.Viol = &Violation{Kind: "race", Msg: fmt.Sprintf("%d data race(s) reported by the race detector", n-races)}
	}
	if sim.Trouble != "" {
		r.Viol = nil
	}
	return r
}

func hash(s ...string) uint64 {
	h := fnv.New64a()
	for _, x := range s {
		h.Write([]byte(x))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b + 0x7f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func seedOf(base uint64, prop string, i int) uint64 {
	return mix(mix(base, hash(prop)), uint64(i))
}

// safely runs fn and returns what it panicked with.
func safely(fn func()) (pan any, where string) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case stop, sim.UnsupportedError:
				panic(x)
			}
			pan = x
			where = panicPlace()
		}
	}()
	fn()
	return nil, ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func quoteLines(s string) string { return strings.ReplaceAll(s, "\n", "\n    ") }
