package indextree

import (
	"math"

	"github.com/smartbch/moeingads/zzv/vsym"
)

// vhFill inserts n keys of one slot in one of three orders, so that B-tree
// nodes split, and removes a run of them, so that nodes merge.
func vhFill(tree *NVTreeMem, m *vhModel, n, order, run, at int) {
	pos := make([]int, n)
	for i := range pos {
		switch order {
		case 0:
			pos[i] = i
		case 1:
			pos[i] = n - 1 - i
		default:
			pos[i] = i * 7 % n
		}
	}
	key := func(i int) uint64 { return 5<<48 | uint64(i)<<24 | 0x800000 }
	live := map[int]bool{}
	for _, p := range pos {
		if live[p] {
			continue
		}
		live[p] = true
		tree.Set(vhBz(key(p)), int64(p)*1000+7)
	}
	for i := 0; i < run; i++ {
		p := (at + i) % n
		if live[p] {
			delete(live, p)
			tree.Delete(vhBz(key(p)))
		}
	}
	for p := 0; p < n; p++ {
		if live[p] {
			m.set(key(p), int64(p)*1000+7)
		}
	}
}

func vhSplits(write bool) (*NVTreeMem, *vhModel) {
	sizes, orders, runs := []int{21, 41}, []int{0, 2}, []int{0, 17}
	if vsym.Thorough() {
		sizes, orders, runs = []int{10, 11, 19, 20, 21, 22, 41, 64}, []int{0, 1, 2}, []int{0, 5, 17}
	}
	n := sizes[vsym.Choose("n", len(sizes))]
	tree := NewNVTreeMem(nil)
	m := &vhModel{}
	tree.BeginWrite(1)
	order := orders[vsym.Choose("order", len(orders))]
	run, at := runs[vsym.Choose("run", len(runs))], 0
	if run > 0 {
		at = []int{0, 11}[vsym.Choose("at", 2)]
	}
	vhFill(tree, m, n, order, run, at)
	if !write {
		tree.EndWrite()
		return tree, m
	}
	// one more key anywhere in the slot, or a removal of any present key
	if vsym.Bool("del") {
		k := vsym.U64("k")&(1<<48-1) | 5<<48
		_, ok := m.get(k)
		vsym.Assume(ok)
		tree.Delete(vhBz(k))
		m.erase(k)
	} else {
		k := vsym.U64("k")&(1<<48-1) | 5<<48
		v := vhPos("v")
		tree.Set(vhBz(k), v)
		m.set(k, v)
	}
	tree.EndWrite()
	return tree, m
}

// 21 or 41 keys of one slot (B-tree nodes hold 20) in two insertion orders, none
// or 17 of them removed again, then an arbitrary key of the
// slot set or an arbitrary live one removed; a full forward and a full reverse
// scan, the count, and a lookup of the written key. Thorough:
// sizes to 64, three orders, runs of 5.
// verif: prop=C15 budget=90 real=yes
func VH_C15_Splits() {
	tree, m := vhSplits(true)
	n := len(m.keys)
	vhScan(tree.Iterator(vhBz(0), vhBz(math.MaxUint64)), m, 0, math.MaxUint64, n, false)
	vhScan(tree.ReverseIterator(vhBz(0), vhBz(math.MaxUint64)), m, 0, math.MaxUint64, n, true)
	vhGetBoth(tree, m, m.keys[n-1])
	vsym.Assert(int64(tree.ActiveCount()) == m.count(0, math.MaxUint64), "the size is the number of live keys")
	vsym.Reach("end")
}

// The same trees without the last write; an arbitrary key of the slot is looked up and is the start of
// a forward and the end of a reverse scan, of which the first key is compared.
// verif: prop=C15 budget=90 real=yes
func VH_C15_SplitSeek() {
	tree, m := vhSplits(vsym.Thorough())
	q := vsym.U64("q")&(1<<48-1) | 5<<48
	vhGetBoth(tree, m, q)
	// first key at or after q, last key before q
	lo, hi := uint64(0), uint64(math.MaxUint64)
	for i, k := range m.keys {
		l := m.liveAt(i)
		hi = uint64(vsym.IteI64(vsym.And(l, vsym.And(k >= q, k < hi)), int64(k), int64(hi)))
		lo = uint64(vsym.IteI64(vsym.And(l, vsym.And(k < q, k > lo)), int64(k), int64(lo)))
	}
	it := tree.Iterator(vhBz(q), vhBz(math.MaxUint64))
	if it.Valid() {
		vsym.Assert(vhU64(it.Key()) == hi, "a forward iterator starts at the first key at or after its start")
	} else {
		vsym.Assert(hi == math.MaxUint64, "a forward iterator is empty only if no key follows")
	}
	it.Close()
	it = tree.ReverseIterator(vhBz(0), vhBz(q))
	if it.Valid() {
		vsym.Assert(vhU64(it.Key()) == lo, "a reverse iterator starts at the last key before its end")
	} else {
		vsym.Assert(lo == 0, "a reverse iterator is empty only if no key precedes")
	}
	it.Close()
	vsym.Reach("end")
}
