package main

// Src is the single source of all random decisions of a case: a recorded
// sequence of choices.  Replaying the recorded sequence reproduces the case,
// and shrinking is done on the sequence (0 always is the simplest choice).
type Src struct {
	in     []uint64
	pos    int
	replay bool
	state  uint64
	out    []uint64
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h)
}

// NewSrc returns the source of case number idx of a property
func NewSrc(seed uint64, prop string, idx int) *Src {
	return &Src{state: mix(seed ^ hashStr(prop) ^ mix(uint64(idx)*2654435761+17))}
}

// ReplaySrc returns a source that replays choices
func ReplaySrc(choices []uint64) *Src { return &Src{in: choices, replay: true} }

func (s *Src) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	return mix(s.state)
}

// N draws from 0..n-1
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.replay {
		if s.pos < len(s.in) {
			v = s.in[s.pos]
			s.pos++
		}
		if v >= uint64(n) {
			v = v % uint64(n)
		}
	} else {
		v = s.next() % uint64(n)
	}
	s.out = append(s.out, v)
	return int(v)
}

// Range draws from lo..hi
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// P is true with probability pct/100 (false is the simplest choice)
func (s *Src) P(pct int) bool {
	if pct <= 0 {
		return false
	}
	return s.N(100) >= 100-pct
}

// Pick draws an index by weight
func (s *Src) Pick(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := s.N(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Str picks one of the strings
func (s *Src) Str(opts ...string) string { return opts[s.N(len(opts))] }

// shrinkChoices minimises a choice sequence for which fails() is true
func shrinkChoices(choices []uint64, fails func([]uint64) ([]uint64, bool), budget int) []uint64 {
	best := choices
	try := func(c []uint64) bool {
		if budget <= 0 {
			return false
		}
		budget--
		if used, ok := fails(c); ok {
			if len(used) <= len(c) {
				c = used
			}
			best = c
			return true
		}
		return false
	}
	for improved := true; improved && budget > 0; {
		improved = false
		for size := 64; size >= 1 && budget > 0; size /= 2 {
			for i := len(best) - size; i >= 0 && budget > 0; i -= size {
				if i+size > len(best) {
					continue
				}
				c := append(append([]uint64{}, best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
					if i > len(best) {
						i = len(best)
					}
				}
			}
		}
		for size := 16; size >= 1 && budget > 0; size /= 4 {
			for i := 0; i < len(best) && budget > 0; i += size {
				c := append([]uint64{}, best...)
				ch := false
				for j := i; j < i+size && j < len(c); j++ {
					if c[j] != 0 {
						c[j] = 0
						ch = true
					}
				}
				if ch && try(c) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best) && budget > 0; i++ {
			for best[i] > 0 && budget > 0 {
				c := append([]uint64{}, best...)
				c[i] = best[i] / 2
				if try(c) {
					improved = true
					continue
				}
				c = append([]uint64{}, best...)
				c[i] = best[i] - 1
				if !try(c) {
					break
				}
				improved = true
				if i >= len(best) {
					break
				}
			}
		}
	}
	return best
}
