package sync

import (
	"unsafe"

	"verif.local/sim/simrt"
)

// The list of items is hidden from the race detector: the real pool orders the Put of
// an item before the Get of the same item, and nothing else.

const poolCap = 64

//go:norace
func (p *Pool) pop() *item {
	n := len(p.items)
	if n == 0 {
		return nil
	}
	it := p.items[n-1]
	p.items = p.items[:n-1]
	return it
}

//go:norace
func (p *Pool) push(it *item) {
	if p.items == nil {
		if !registered {
			registered = true
			simrt.OnRun(resetPools)
		}
		pools = append(pools, p)
		p.items = make([]*item, 0, poolCap)
	}
	if len(p.items) < poolCap {
		p.items = append(p.items, it)
	}
}

var (
	pools      []*Pool
	registered bool
)

// resetPools empties the pools: no run depends on the one before.
//
//go:norace
func resetPools() {
	for _, p := range pools {
		p.items = p.items[:0]
	}
}

func acquire(it *item) { simrt.RaceAcquire(unsafe.Pointer(it)) }
func release(it *item) { simrt.RaceRelease(unsafe.Pointer(it)) }
