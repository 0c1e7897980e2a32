package moeingads

import (
	"sync"

	"github.com/smartbch/moeingads/zzv/vsym"
)

// vhBlockOps runs one block on m with the preparations and the writes in given orders.
func vhBlockOps(m *MoeingADS, h int64, pool [][]byte, ops []vhOp, prep, write []int) {
	for _, i := range prep {
		o := ops[i]
		if o.kind == vhSet {
			m.PrepareForUpdate(vsym.CloneBytes(pool[o.key]))
		} else {
			m.PrepareForDeletion(vsym.CloneBytes(pool[o.key]))
		}
	}
	m.BeginWrite(h)
	for _, i := range write {
		o := ops[i]
		if o.kind == vhSet {
			m.Set(vsym.CloneBytes(pool[o.key]), vsym.CloneBytes(o.val))
		} else {
			m.Delete(vsym.CloneBytes(pool[o.key]))
		}
	}
	m.EndWrite()
}

// vhSameStores compares everything two stores hold for the keys.
func vhSameStores(a, b *MoeingADS, pool [][]byte, what string) {
	vsym.Assert(vsym.BytesEq(a.GetRootHash(), b.GetRootHash()), what+": the root hash is the same")
	for i := -1; i < len(pool); i++ {
		k := vhStart
		if i >= 0 {
			k = pool[i]
		}
		p, ok := a.idxTree.Get(k)
		q, ok2 := b.idxTree.Get(k)
		vsym.Assert(ok == ok2 && p == q, what+": the position is the same")
		x, y := a.GetEntry(k), b.GetEntry(k)
		vsym.Assert((x == nil) == (y == nil), what+": the same keys are present")
		if x != nil && y != nil {
			vsym.Assert(x.SerialNum == y.SerialNum && x.Height == y.Height && x.LastHeight == y.LastHeight &&
				vsym.BytesEq(x.Value, y.Value) && vsym.BytesEq(x.NextKey, y.NextKey), what+": the entry is the same")
		}
	}
	vsym.Assert(a.ActiveCount() == b.ActiveCount(), what+": the number of keys is the same")
}

func vhPerm(name string, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	for i := 0; i+1 < n; i++ {
		j := i + vsym.Choose(name, n-i)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Two stores and three keys, two of which share a bucket (and their first six or seven bytes) and all a shard (thorough: or not); a block sets all keys in both; the next sets or deletes each of
// them, or two of them and a new one; in the second store the order in which the keys are prepared and the order in which they are written is
// any other, and every map iteration of the block goes through its entries in any order; roots, positions, entries and counts are compared after it
// and after one more block.
// verif: prop=C24 real=no budget=200 tbudget=850
func VH_C24_Orders() {
	pool := [][]byte{{70, 1, 0, 0, 0, 0, 0, 9}, {70, 1, 0, 0, 0, 0, 1, 9}, {70, 1, 0, 0, 0, 0, 1, 10}, {90, 0, 0, 0, 0, 0, 0, 9}}
	if vsym.Thorough() && vsym.Bool("shards") {
		pool[1][7], pool[2][7] = 200, 100
	}
	a, b := vhOpen("./a", false), vhOpen("./b", false)
	vhSameStores(a, b, pool, "new")
	asc := []int{0, 1, 2}
	ops := []vhOp{{vhSet, 0, []byte{1}}, {vhSet, 2, []byte{2}}, {vhSet, 3, []byte{3}}}
	vhBlockOps(a, 4, pool, ops, asc, asc)
	vhBlockOps(b, 4, pool, ops, asc, asc)
	vhSameStores(a, b, pool, "first block")
	first := vsym.Choose("first", 2)
	for i := range ops {
		ops[i].kind = vsym.Choose("op", 2)
		ops[i].val = []byte{byte(10 + i)}
	}
	ops[0].key, ops[1].key, ops[2].key = first, 2, 3
	vhBlockOps(a, 7, pool, ops, asc, asc)
	prep, write := vhPerm("prepare", 3), asc
	if vsym.Thorough() || prep[0] == 0 {
		write = vhPerm("write", 3)
	}
	vsym.MapOrder(true)
	vhBlockOps(b, 7, pool, ops, prep, write)
	vsym.MapOrder(false)
	vhSameStores(a, b, pool, "second block")
	ops = []vhOp{{vhSet, 1, []byte{20}}, {vhSet, 2, []byte{21}}, {vhDel, 3, nil}}
	vhBlockOps(a, 9, pool, ops, asc, asc)
	vhBlockOps(b, 9, pool, ops, asc, asc)
	vhSameStores(a, b, pool, "third block")
	vsym.Reach("end")
}

// vhTwo opens two stores, sets three keys of two shards in both and
// returns a block of two operations on any of them and a new key.
func vhTwo() (a, b *MoeingADS, pool [][]byte, ops []vhOp) {
	pool = [][]byte{{70, 1, 0, 0, 0, 0, 0, 9}, {70, 2, 0, 0, 0, 0, 0, 9}, {71, 2, 0, 0, 0, 0, 0, 99}, {90, 0, 0, 0, 0, 0, 0, 9}}
	a, b = vhOpen("./a", false), vhOpen("./b", false)
	asc := []int{0, 1, 2}
	ops = []vhOp{{vhSet, 0, []byte{1}}, {vhSet, 2, []byte{2}}, {vhSet, 3, []byte{3}}}
	vhBlockOps(a, 4, pool, ops, asc, asc)
	vhBlockOps(b, 4, pool, ops, asc, asc)
	if !vsym.Thorough() {
		if vsym.Bool("insert") {
			return a, b, pool, []vhOp{{vhSet, 1, []byte{9}}, {vhDel, 2, nil}}
		}
		return a, b, pool, []vhOp{{vhDel, 0, nil}, {vhSet, 2, []byte{8}}}
	}
	ops = nil
	for i := 0; i < 2; i++ {
		o := vhOp{kind: vsym.Choose("op", 2), key: 2 * i, val: []byte{byte(10 + i)}}
		if vsym.Bool("other") {
			o.key++
		}
		vsym.Assume(o.key != 1 || o.kind != vhDel)
		ops = append(ops, o)
	}
	return
}

// Two stores with three keys in two shards; a block of two sets or deletes of any (quick: an insertion or a deletion in one shard with a
// deletion or a change in the other); in the second store any one (thorough: two) times the running goroutine is delayed until all others have run on as far as they can, at any synchronisation operation
// of preparation, writes and end of block; roots, positions, entries and counts are compared after it and (thorough) after one more block.
// verif: prop=C24 real=no ncpu=2 budget=200 tbudget=850
func VH_C24_Delays() {
	a, b, pool, ops := vhTwo()
	asc := []int{0, 1}
	vhBlockOps(a, 7, pool, ops, asc, asc)
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	vsym.Delays(n)
	vhBlockOps(b, 7, pool, ops, asc, asc)
	vsym.Delays(0)
	vhSameStores(a, b, pool, "second block")
	if vsym.Thorough() {
		ops = []vhOp{{vhSet, 1, []byte{20}}, {vhDel, 3, nil}}
		vhBlockOps(a, 9, pool, ops, asc, asc)
		vhBlockOps(b, 9, pool, ops, asc, asc)
		vhSameStores(a, b, pool, "third block")
	}
	vsym.Reach("end")
}

// Two stores with three keys in two shards; a block of two sets or deletes of any (quick: an insertion or a deletion in one shard with a
// deletion or a change in the other); in the second store one context switch
// to any goroutine, beside those forced by blocking, at any synchronisation operation
// of preparation, writes and end of block; roots, positions, entries and counts are compared after it.
// verif: prop=C24 real=no ncpu=2 tier=thorough budget=200 tbudget=850
func VH_C24_Schedules() {
	a, b, pool, ops := vhTwo()
	asc := []int{0, 1}
	vhBlockOps(a, 7, pool, ops, asc, asc)
	vsym.Schedules(1)
	vhBlockOps(b, 7, pool, ops, asc, asc)
	vsym.Schedules(0)
	vhSameStores(a, b, pool, "second block")
	vsym.Reach("end")
}

// Two stores with three keys in two shards; a block of two sets or deletes of any (quick: an insertion or a deletion in one shard with a
// deletion or a change in the other) and a change or deletion of the least key; in the second store two goroutines prepare the block at the same time, the second the
// last two operations, and write it at the same time (thorough; two keys of one shard are written by one then); any one time the running goroutine is delayed until all others
// have run on as far as they can, at any synchronisation operation of that;
// roots, positions, entries and counts are compared after it.
// verif: prop=C24 real=no ncpu=2 budget=200 tbudget=850
func VH_C24_Parallel() {
	a, b, pool, ops := vhTwo()
	if vsym.Bool("change") {
		ops = append(ops, vhOp{vhSet, 0, []byte{30}})
	} else {
		ops = append(ops, vhOp{vhDel, 0, nil})
	}
	vsym.Assume(ops[0].key != 0)
	vhBlockOps(a, 7, pool, ops, []int{0, 1, 2}, []int{0, 1, 2})
	both := func(one, two []int, f func(o vhOp)) {
		var wg sync.WaitGroup
		for _, l := range [][]int{one, two} {
			l := l
			wg.Add(1)
			go func() {
				for _, i := range l {
					f(ops[i])
				}
				wg.Done()
			}()
		}
		wg.Wait()
	}
	vsym.Delays(1)
	both([]int{0}, []int{1, 2}, func(o vhOp) {
		if o.kind == vhSet {
			b.PrepareForUpdate(vsym.CloneBytes(pool[o.key]))
		} else {
			b.PrepareForDeletion(vsym.CloneBytes(pool[o.key]))
		}
	})
	b.BeginWrite(7)
	write := func(o vhOp) {
		if o.kind == vhSet {
			b.Set(vsym.CloneBytes(pool[o.key]), vsym.CloneBytes(o.val))
		} else {
			b.Delete(vsym.CloneBytes(pool[o.key]))
		}
	}
	if vsym.Thorough() {
		both([]int{0, 2}, []int{1}, write)
	} else {
		for _, o := range ops {
			write(o)
		}
	}
	vsym.Delays(0)
	b.EndWrite()
	vhSameStores(a, b, pool, "second block")
	vsym.Reach("end")
}
