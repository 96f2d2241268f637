// Package core is the deterministic simulator's engine: choice tapes, the run
// context, the batch runner, the minimiser and the replay files.
//
// One execution ("run") is a pure function of a tape of small integers. In
// search mode the tape is produced by a PRNG seeded from (VERIF_SEED, property,
// run index) and recorded; in replay mode it's read back, and every choice past
// the end of the tape is 0, which by convention always means "the simplest
// thing": stop, no fault, smallest size.
package core

// PRNG is splitmix64.
type PRNG struct{ s uint64 }

func NewPRNG(parts ...uint64) *PRNG {
	p := &PRNG{s: 0x9E3779B97F4A7C15}
	for _, x := range parts {
		p.s ^= x
		p.Next()
		p.s += p.Next()
	}
	return p
}

func (p *PRNG) Next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Tape is the source of every decision of a run.
type Tape struct {
	C     []int // the choices made so far (search) or to be made (replay)
	pos   int
	rng   *PRNG // nil when replaying
	force []int // what to choose first, instead of at random
	sink  func(int)
	marks []int // tape positions at which operations begin
}

// Int chooses a value in [0, n).
func (t *Tape) Int(n int) int {
	if n <= 1 {
		return 0
	}
	if t.rng != nil {
		v := 0
		if len(t.force) > 0 {
			v, t.force = t.force[0]%n, t.force[1:]
		} else {
			v = int(t.rng.Next() % uint64(n))
		}
		t.C = append(t.C, v)
		t.pos++
		if t.sink != nil {
			t.sink(v)
		}
		return v
	}
	if t.pos < len(t.C) {
		v := t.C[t.pos]
		t.pos++
		if v < 0 {
			v = 0
		}
		return v % n
	}
	t.pos++
	return 0
}

// Range chooses a value in [lo, hi].
func (t *Tape) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + t.Int(hi-lo+1)
}

// Chance is true with probability num/den; false is the simple outcome.
func (t *Tape) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	return t.Int(den) >= den-num
}

// Pick chooses an index with the given weights; index 0 is the simplest.
func (t *Tape) Pick(weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	if total == 0 {
		return 0
	}
	v := t.Int(total)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return len(weights) - 1
}

// Mark notes that an operation starts here, for the minimiser.
func (t *Tape) Mark() { t.marks = append(t.marks, t.pos) }

// Long decides, rarely, that a history is to be a very long one.
func (t *Tape) Long() bool { return t.Chance(1, 1000) }

// More decides whether to go on with another operation; about avg times.
func (t *Tape) More(avg int) bool {
	t.Mark()
	return t.Int(avg+1) != 0
}
