// Package sim is the deterministic simulator: one source of choices, a
// simulated processor with preemption at every statement of the instrumented
// code, and simulated tasks.
package sim

import "fmt"

// Stream identifies one of the independent choice sequences of a run.
type Stream int

// The choice streams.
const (
	Gen    Stream = iota // workload: texts, projects, operations
	Sched                // scheduling
	Fault                // fault injection
	Order                // map iteration and directory listing order
	Config               // per-run configuration
	NStreams
)

// StreamNames are the names of the streams in replay files.
var StreamNames = [NStreams]string{"gen", "sched", "fault", "order", "config"}

// Choices is the source of every random decision of a run. It either draws
// from a pseudo-random generator or replays recorded choices; when a recorded
// stream is exhausted every further choice is 0.
type Choices struct {
	state [NStreams]uint64
	Rec   [NStreams][]uint64
	in    [NStreams][]uint64
	pos   [NStreams]int
	fixed [NStreams]bool
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewChoices returns the choices decided by the given seed.
func NewChoices(seed uint64) *Choices {
	c := &Choices{}
	for i := range c.state {
		c.state[i] = mix(mix(seed+0x9e3779b97f4a7c15) + uint64(i+1)*0x9e3779b97f4a7c15)
	}
	return c
}

// ReplayChoices returns choices that replay the given streams.
func ReplayChoices(in [NStreams][]uint64) *Choices {
	c := &Choices{in: in}
	for i := range c.fixed {
		c.fixed[i] = true
	}
	return c
}

// Force makes a stream replay the given choices.
func (c *Choices) Force(s Stream, in []uint64) { c.in[s], c.pos[s], c.fixed[s] = in, 0, true }

// Draw returns a choice in [0,n).
//
//go:norace
func (c *Choices) Draw(s Stream, n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if c.fixed[s] {
		if c.pos[s] < len(c.in[s]) {
			v = c.in[s][c.pos[s]] % n
		}
		c.pos[s]++
	} else {
		c.state[s] += 0x9e3779b97f4a7c15
		v = mix(c.state[s]) % n
	}
	c.push(s, v)
	return v
}

// push appends to the record without the growth path of append, which the
// race detector observes.
//
//go:norace
func (c *Choices) push(s Stream, v uint64) {
	r := c.Rec[s]
	if len(r) == cap(r) {
		n := make([]uint64, len(r), 2*cap(r)+64)
		for i := 0; i < len(r); i++ {
			n[i] = r[i]
		}
		r = n
	}
	r = r[:len(r)+1]
	r[len(r)-1] = v
	c.Rec[s] = r
}

// Used returns the choices consumed so far, by stream.
func (c *Choices) Used() [NStreams][]uint64 {
	var out [NStreams][]uint64
	for i := range c.Rec {
		out[i] = append([]uint64(nil), c.Rec[i]...)
	}
	return out
}

// C is the source of choices of the current run.
var C *Choices

// Intn draws from [0,n).
func Intn(s Stream, n int) int { return int(C.Draw(s, uint64(n))) }

// Chance reports true with probability num/den; choice 0 is false.
func Chance(s Stream, num, den int) bool {
	return int(C.Draw(s, uint64(den))) >= den-num
}

// Pick returns one of the given values.
func Pick[T any](s Stream, v []T) T { return v[Intn(s, len(v))] }

// Unsupported is the panic value for operations the simulator does not model;
// it is trouble with the check and never a verdict.
type UnsupportedError struct{ What string }

func (e UnsupportedError) Error() string { return "not supported by the simulator: " + e.What }

// Unsupported marks the run as unusable and returns the panic value.
func Unsupported(what string) any {
	Trouble = fmt.Sprintf("not supported by the simulator: %s", what)
	return UnsupportedError{what}
}

// Trouble is set when the run cannot be judged.
var Trouble string
