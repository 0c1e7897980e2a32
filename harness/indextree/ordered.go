package indextree

import (
	"math"

	"github.com/smartbch/moeingads/zzv/vsym"
)

// Three writes (set or delete of a present key) of arbitrary keys whose upper
// two bytes are 0, 1 or 0xffff, then a lookup of an arbitrary such key, the
// count, and one forward scan over an arbitrary range.
// verif: prop=C15 real=yes
func VH_C15_Forward() {
	tree, m := vhWrites(3)

	a := vhKey("start", vhSlots)
	b := vhKey("end", vhSlots)
	vhScan(tree.Iterator(vhBz(a), vhBz(b)), m, a, b, 3, false)
	vsym.Reach("end")
}

// The same writes, then one reverse scan over an arbitrary range.
// verif: prop=C15 real=yes
func VH_C15_Reverse() {
	tree, m := vhWrites(3)

	a := vhKey("start", vhSlots)
	b := vhKey("end", vhSlots)
	vhScan(tree.ReverseIterator(vhBz(a), vhBz(b)), m, a, b, 3, true)
	vsym.Reach("end")
}

// The same writes, then lookups and the count.
// verif: prop=C15 real=yes
func VH_C15_Lookup() {
	tree, m := vhWrites(4)

	k := vhKey("q", vhSlots)
	vhGetBoth(tree, m, k)
	vsym.Assert(int64(tree.ActiveCount()) == m.count(0, math.MaxUint64)+vsym.IteI64(vhHas(m, math.MaxUint64), 1, 0), "the size is the number of live keys")
	vsym.Reach("end")
}

// One key in each of four partitions (0, 1, 2 and 0xffff) and any subset of
// them deleted again, so that partitions are left empty at every place, then
// lookups, the count and a scan in either direction over an arbitrary range.
// verif: prop=C15 real=yes
func VH_C15_Emptied() {
	tree := NewNVTreeMem(nil)
	m := &vhModel{}
	slots := []uint64{0, 1, 2, 0xffff}
	gone := vsym.Choose("gone", 16)
	tree.BeginWrite(1)
	for _, s := range slots {
		k, v := vhKey("k", []uint64{s}), vhPos("v")
		tree.Set(vhBz(k), v)
		m.set(k, v)
	}
	for i := range slots {
		if gone>>uint(i)&1 != 0 {
			tree.Delete(vhBz(m.keys[i]))
			m.erase(m.keys[i])
		}
	}
	tree.EndWrite()

	a := vhKey("start", slots)
	b := vhKey("end", slots)
	if vsym.Choose("rev", 2) == 0 {
		vhScan(tree.Iterator(vhBz(a), vhBz(b)), m, a, b, 4, false)
	} else {
		vhScan(tree.ReverseIterator(vhBz(a), vhBz(b)), m, a, b, 4, true)
	}
	vsym.Assert(tree.ActiveCount() == 4-vhOnes(gone), "the size is the number of live keys")
	vsym.Reach("end")
}

func vhOnes(x int) (n int) {
	for ; x != 0; x &= x - 1 {
		n++
	}
	return
}
