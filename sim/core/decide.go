// Package core is the deterministic heart of the simulator: one stream of
// decisions (drawn from a seed or replayed from a file) and a cooperative
// scheduler that runs one task at a time inside a synctest bubble.
package core

// Dec is one recorded decision: V was chosen out of [0,N).
type Dec struct {
	N   int
	V   int
	Tag string
}

// Decider is the only source of choices in a simulated run.
type Decider struct {
	s        uint64
	replay   []int
	isReplay bool
	Trace    []Dec
	KeepTags bool
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewSeeded(seed uint64) *Decider { return &Decider{s: mix(seed ^ 0x5eed)} }

// NewReplay follows a recorded list of values; past its end every choice is 0,
// which every caller arranges to be the simplest one.
func NewReplay(vals []int) *Decider { return &Decider{replay: vals, isReplay: true} }

func (d *Decider) next() uint64 {
	d.s += 0x9e3779b97f4a7c15
	return mix(d.s)
}

// N chooses a value in [0,n).
func (d *Decider) N(n int, tag string) int {
	if n <= 0 {
		n = 1
	}
	v := 0
	if d.isReplay {
		if i := len(d.Trace); i < len(d.replay) {
			v = d.replay[i]
			if v >= n {
				v = n - 1
			}
			if v < 0 {
				v = 0
			}
		}
	} else if n > 1 {
		v = int(d.next() % uint64(n))
	}
	t := ""
	if d.KeepTags {
		t = tag
	}
	d.Trace = append(d.Trace, Dec{N: n, V: v, Tag: t})
	return v
}

// P is true with probability num/den; 0 in the trace means false.
func (d *Decider) P(num, den int, tag string) bool {
	if d.isReplay {
		return d.N(2, tag) == 1
	}
	v := 0
	if num > 0 && int(d.next()%uint64(den)) < num {
		v = 1
	}
	t := ""
	if d.KeepTags {
		t = tag
	}
	d.Trace = append(d.Trace, Dec{N: 2, V: v, Tag: t})
	return v == 1
}

// W chooses an index with the given weights; index 0 is the simplest choice.
func (d *Decider) W(tag string, weights ...int) int {
	if d.isReplay {
		return d.N(len(weights), tag)
	}
	tot := 0
	for _, w := range weights {
		tot += w
	}
	v := 0
	if tot > 0 {
		r := int(d.next() % uint64(tot))
		for i, w := range weights {
			if r < w {
				v = i
				break
			}
			r -= w
		}
	}
	t := ""
	if d.KeepTags {
		t = tag
	}
	d.Trace = append(d.Trace, Dec{N: len(weights), V: v, Tag: t})
	return v
}

func (d *Decider) Values() []int {
	out := make([]int, len(d.Trace))
	for i := range d.Trace {
		out[i] = d.Trace[i].V
	}
	return out
}

// Minimise shrinks a failing decision list. fails must rerun the simulation and
// report whether the same violation shows; budget bounds the number of reruns.
func Minimise(vals []int, budget int, fails func([]int) bool) []int {
	cur := append([]int(nil), vals...)
	trim := func(v []int) []int {
		for len(v) > 0 && v[len(v)-1] == 0 {
			v = v[:len(v)-1]
		}
		return v
	}
	cur = trim(cur)
	try := func(c []int) bool {
		if budget <= 0 {
			return false
		}
		budget--
		if fails(c) {
			cur = trim(append([]int(nil), c...))
			return true
		}
		return false
	}
	for improved := true; improved && budget > 0; {
		improved = false
		// cut the tail
		for n := len(cur) / 2; n >= 1 && budget > 0; n /= 2 {
			for len(cur) > n {
				if !try(cur[:len(cur)-n]) {
					break
				}
				improved = true
			}
		}
		// delete chunks, then zero chunks
		for _, mode := range []int{0, 1} {
			for n := len(cur) / 2; n >= 1 && budget > 0; n /= 2 {
				for i := 0; i+n <= len(cur) && budget > 0; {
					c := append([]int(nil), cur...)
					if mode == 0 {
						c = append(c[:i], c[i+n:]...)
					} else {
						zero := true
						for j := i; j < i+n; j++ {
							if c[j] != 0 {
								zero = false
							}
							c[j] = 0
						}
						if zero {
							i += n
							continue
						}
					}
					if try(c) {
						improved = true
						if mode == 1 {
							i += n
						}
					} else {
						i += n
					}
				}
			}
		}
		// lower single values
		for i := 0; i < len(cur) && budget > 0; i++ {
			for i < len(cur) && cur[i] > 0 && budget > 0 {
				c := append([]int(nil), cur...)
				if c[i] > 1 {
					c[i] /= 2
				} else {
					c[i] = 0
				}
				if !try(c) {
					break
				}
				improved = true
			}
		}
	}
	return cur
}
