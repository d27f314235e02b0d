package sim

// Choice is one non-default decision: the Idx-th decision of a stream took value Val.
// Value 0 is always the default (simplest) decision and is never recorded.
type Choice struct {
	I int64 `json:"i"`
	V int64 `json:"v"`
}

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix derives a new seed from a seed and a label.
func Mix(seed uint64, label uint64) uint64 {
	x := seed ^ (label * 0xD6E8FEB86659FD93)
	splitmix(&x)
	return splitmix(&x)
}

// Rng is a small deterministic generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng           { return &Rng{seed} }
func (g *Rng) U64() uint64              { return splitmix(&g.s) }
func (g *Rng) Intn(n int) int           { return int(g.U64() % uint64(n)) }
func (g *Rng) Chance(num, den int) bool { return g.Intn(den) < num }

// Stream is a recorded (or replayed) sequence of decisions.
type Stream struct {
	rng    *Rng
	idx    int64
	rec    []Choice
	replay bool
	in     []Choice
	inPos  int
}

func newStream(seed uint64, replay bool, in []Choice) *Stream {
	return &Stream{rng: NewRng(seed), replay: replay, in: in}
}

// lookup returns the replayed value at index i (indices are visited in increasing order).
func (s *Stream) lookup(i int64) int64 {
	for s.inPos < len(s.in) && s.in[s.inPos].I < i {
		s.inPos++
	}
	if s.inPos < len(s.in) && s.in[s.inPos].I == i {
		return s.in[s.inPos].V
	}
	return 0
}

func (s *Stream) note(i, v int64) {
	if v != 0 {
		s.rec = append(s.rec, Choice{i, v})
	}
}

// Draw returns a decision in [0,n); 0 is the default.
func (s *Stream) Draw(n int) int {
	i := s.idx
	s.idx++
	if n <= 1 {
		return 0
	}
	var v int64
	if s.replay {
		v = s.lookup(i)
		if v < 0 || v >= int64(n) {
			v = ((v % int64(n)) + int64(n)) % int64(n)
		}
	} else {
		v = int64(s.rng.U64() % uint64(n))
	}
	s.note(i, v)
	return int(v)
}

// Chance is true with probability num/den; false is the default.
func (s *Stream) Chance(num, den int) bool {
	i := s.idx
	s.idx++
	var v int64
	if s.replay {
		v = s.lookup(i)
		if v != 0 {
			v = 1
		}
	} else if num > 0 && int(s.rng.U64()%uint64(den)) < num {
		v = 1
	}
	s.note(i, v)
	return v == 1
}

// Pick returns an index weighted by the given weights (0 is the default).
func (s *Stream) Pick(weights ...int) int {
	i := s.idx
	s.idx++
	var v int64
	if s.replay {
		v = s.lookup(i)
		if v < 0 || int(v) >= len(weights) {
			v = 0
		}
	} else {
		t := 0
		for _, w := range weights {
			t += w
		}
		x := int(s.rng.U64() % uint64(t))
		for k, w := range weights {
			if x < w {
				v = int64(k)
				break
			}
			x -= w
		}
	}
	s.note(i, v)
	return int(v)
}

// Range returns a value in [lo,hi], lo being the default.
func (s *Stream) Range(lo, hi int) int { return lo + s.Draw(hi-lo+1) }
