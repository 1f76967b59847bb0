// Package vsim is the simulator: choice tape, scheduler, clock, processes and an
// in-memory file system. One tape decides one execution.
package vsim

// PRNG is splitmix64.
type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{seed} }

func (p *PRNG) Next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (p *PRNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.Next() % uint64(n))
}

// Mix derives a seed from several numbers.
func Mix(v ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range v {
		p := PRNG{h ^ x}
		h = p.Next()
	}
	return h
}

// Tape is the source of every choice of an execution. It either records what the
// seed yields or replays a recorded list (zero after its end: the simplest choice).
type Tape struct {
	rng    *PRNG
	replay []uint64
	fixed  bool
	pos    int
	Rec    []uint64
}

func NewTape(seed uint64) *Tape { return &Tape{rng: NewPRNG(seed)} }

func ReplayTape(v []uint64) *Tape { return &Tape{replay: v, fixed: true} }

// Draw yields a number below n.
func (t *Tape) Draw(n uint64) uint64 {
	if n == 0 {
		n = 1
	}
	var v uint64
	if t.fixed {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos] % n
		}
	} else {
		v = t.rng.Next() % n
	}
	t.pos++
	t.Rec = append(t.Rec, v)
	return v
}

func (t *Tape) Intn(n int) int {
	if n <= 1 {
		return int(t.Draw(1))
	}
	return int(t.Draw(uint64(n)))
}

// Seed32 draws a seed for a local generator; 0 stands for the plain behaviour.
func (t *Tape) Seed32() uint64 { return t.Draw(1 << 32) }

// Bool is true with probability num/den; 0 on the tape is false.
func (t *Tape) Bool(num, den int) bool { return int(t.Draw(uint64(den))) >= den-num }

// Range yields lo..hi.
func (t *Tape) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }
