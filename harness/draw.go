package main

// Draw source: every random decision of a test case is one entry of a choice
// sequence. A case is a pure function of its choice sequence, so a sequence is
// a complete replay and shrinking a case means shrinking its sequence.

type D struct {
	rec    []uint64 // choices actually made (after reduction)
	replay []uint64
	isRep  bool
	pos    int
	s      uint64 // splitmix64 state when generating
}

func newD(seed uint64) *D { return &D{s: seed} }

func replayD(seq []uint64) *D { return &D{replay: seq, isRep: true} }

func splitmix(s *uint64) uint64 {
	*s += 0x9E3779B97F4A7C15
	z := *s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// n returns a choice in [0,m); 0 is the simplest choice by convention.
func (d *D) n(m uint64) uint64 {
	if m == 0 {
		m = 1
	}
	var v uint64
	if d.isRep {
		if d.pos < len(d.replay) {
			v = d.replay[d.pos]
			if v >= m {
				v = v % m
			}
		}
		d.pos++
	} else {
		v = splitmix(&d.s) % m
	}
	d.rec = append(d.rec, v)
	return v
}

// Int returns a value in [lo,hi]; shrinks to lo.
func (d *D) Int(lo, hi int) int {
	if hi < lo {
		hi = lo
	}
	return lo + int(d.n(uint64(hi-lo)+1))
}

// Near returns a value in [-r,r]; shrinks to 0.
func (d *D) Near(r int) int {
	v := int(d.n(uint64(2*r) + 1))
	if v%2 == 1 {
		return (v + 1) / 2
	}
	return -v / 2
}

// P is true with probability pct/100; shrinks to false.
func (d *D) P(pct int) bool { return int(d.n(100)) >= 100-pct }

func (d *D) Pick(n int) int { return int(d.n(uint64(n))) }

func pick[T any](d *D, xs ...T) T { return xs[d.Pick(len(xs))] }

func (d *D) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		// choice 0 keeps the element in place
		j := i - int(d.n(uint64(i)+1))
		if i != j {
			swap(i, j)
		}
	}
}

// sub returns a derived PRNG seed: one recorded choice from which a big amount
// of bulk data (not worth shrinking element by element) is expanded.
func (d *D) sub() *rng { return &rng{d.n(1<<32) + 1} }

type rng struct{ s uint64 }

func (r *rng) Intn(n int) int { return int(splitmix(&r.s) % uint64(n)) }
func (r *rng) F() float64     { return float64(splitmix(&r.s)>>11) / (1 << 53) }
