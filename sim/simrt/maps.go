package simrt

import (
	"fmt"
	"sort"
)

// Pair is a map entry.
type Pair[K comparable, V any] struct {
	K K
	V V
}

// Pairs returns the entries of m in an order that depends only on the seed of the run.
func Pairs[M ~map[K]V, K comparable, V any](m M) []Pair[K, V] {
	pairs := make([]Pair[K, V], 0, len(m))
	for k, v := range m {
		pairs = append(pairs, Pair[K, V]{k, v})
	}
	if len(pairs) < 2 {
		return pairs
	}
	names := make([]string, len(pairs))
	idx := make([]int, len(pairs))
	for i, p := range pairs {
		names[i] = fmt.Sprintf("%T %v", p.K, p.K)
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool { return names[idx[i]] < names[idx[j]] })
	out := make([]Pair[K, V], len(pairs))
	for i, j := range idx {
		out[i] = pairs[j]
	}
	permute(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// Live updates the value of the pair and reports whether the map still has its key, like
// a range loop does before each iteration.
func Live[M ~map[K]V, K comparable, V any](m M, p *Pair[K, V]) bool {
	v, ok := m[p.K]
	if ok {
		p.V = v
		return true
	}
	return p.K != p.K // NaN
}
