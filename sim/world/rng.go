package world

// rng is the one source of randomness of a plan.
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n returns a number in [0, n).
func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// in returns a number in [a, b].
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

// p reports true with a probability of pct percent.
func (r *rng) p(pct int) bool { return r.n(100) < pct }

func pick[T any](r *rng, s []T) T { return s[r.n(len(s))] }

// small returns a number in [0, max], mostly a small one.
func (r *rng) small(max int) int {
	k := r.n(100)
	switch {
	case k < 40:
		return min(max, r.n(2))
	case k < 85:
		return min(max, r.n(4))
	default:
		return r.in(0, max)
	}
}
