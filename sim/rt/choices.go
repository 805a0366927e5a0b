// Package simrt is the simulator: recorded choices, a cooperative scheduler,
// an in-memory kernel with fault injection, a simulated clock and the hooks
// the instrumented sources call.
package simrt

import (
	"hash/fnv"
	"sort"
)

type rng struct{ s uint64 }

func (r *rng) next() uint64 { // splitmix64
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Stream is one named sequence of choices. A choice of 0 is always the plainest
// one (no fault, no preemption, canonical order), so a shortened or zeroed
// stream is a simpler run.
type Stream struct {
	name string
	r    rng
	in   []uint64
	rep  bool
	Out  []uint64
}

func (s *Stream) draw(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.rep {
		if len(s.Out) < len(s.in) {
			v = s.in[len(s.Out)] % n
		}
	} else {
		v = s.r.next() % n
	}
	s.Out = append(s.Out, v)
	return v
}

// N returns a choice in [0,n).
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.draw(uint64(n)))
}

// U returns a 32-bit choice.
func (s *Stream) U() uint64 { return s.draw(1 << 32) }

// Odds is true with probability num/den; false is the plain choice.
func (s *Stream) Odds(num, den int) bool {
	return s.N(den) >= den-num
}

// Range returns a choice in [lo,hi].
func (s *Stream) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

func Pick[T any](s *Stream, xs ...T) T { return xs[s.N(len(xs))] }

// Choices is everything that decides a run.
type Choices struct {
	Seed uint64
	rep  bool
	in   map[string][]uint64
	st   map[string]*Stream
}

func NewChoices(seed uint64) *Choices {
	return &Choices{Seed: seed, st: map[string]*Stream{}}
}

// ReplayChoices repeats a recorded run; choices beyond the record are 0.
func ReplayChoices(seed uint64, in map[string][]uint64) *Choices {
	return &Choices{Seed: seed, rep: true, in: in, st: map[string]*Stream{}}
}

func (c *Choices) S(name string) *Stream {
	s := c.st[name]
	if s == nil {
		h := fnv.New64a()
		h.Write([]byte(name))
		s = &Stream{name: name, r: rng{c.Seed*0x2545f4914f6cdd1d + h.Sum64()}, rep: c.rep, in: c.in[name]}
		s.r.next()
		c.st[name] = s
	}
	return s
}

// Record returns the choices made so far with trailing zeros removed.
func (c *Choices) Record() map[string][]uint64 {
	m := map[string][]uint64{}
	for n, s := range c.st {
		o := s.Out
		for len(o) > 0 && o[len(o)-1] == 0 {
			o = o[:len(o)-1]
		}
		if len(o) > 0 {
			m[n] = append([]uint64(nil), o...)
		}
	}
	return m
}

func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
