package datatree

import "github.com/smartbch/moeingads/zzv/vsym"

// vhPruneTree builds full twigs whose entries are dummies except one per twig.
func vhPruneTree(twigs int) *vhRef {
	r := vhNewRef("./t")
	for t := 0; t < twigs; t++ {
		r.put([]byte{byte(t)})
		r.dummies(2047)
	}
	r.put([]byte("y"))
	r.check(r.endBlock(), "setup")
	return r
}

func (r *vhRef) evictTo(from, to int) {
	for t := from; t < to; t++ {
		r.deact(int64(t) << 11)
		r.tr.EvictTwig(int64(t))
	}
}

// afterPrune checks what must not change: later blocks, kept entries.
func (r *vhRef) afterPrune(end, oldest, twigs int, what string) {
	for t := end; t < twigs; t++ {
		sn := int64(t) << 11
		vhSameEntry(r.tr.ReadEntry(r.pos[sn]), r.entries[sn], what+": kept entry")
	}
	t := oldest + vsym.Choose("touch", twigs-oldest)
	if r.bit(int64(t) << 11) {
		r.deact(int64(t) << 11)
	}
	r.put(vsym.Bytes("v", 1))
	h := r.endBlock()
	r.check(h, what+": next block")
	for t := end; t < twigs; t++ {
		r.evicted[int64(t)] = t < oldest
		r.prove(int64(t)<<11+int64(t)*300, h, what+": proof of a remaining leaf")
	}
	r.prove(r.next()-1, h, what+": proof of a remaining leaf")
	vsym.ObserveBytes("root", h[:])
}

// Seven full twigs and a youngest one; the twigs below 4, 5 or 6 are evicted; a
// prune from twig 0 to every admissible end, and a second one from there to
// every admissible end; a block with a deactivation in each active twig after each prune. The root of
// every block is the one computed from all leaves.
// verif: prop=C12 real=yes budget=200 tbudget=800
func VH_C12_Prune() {
	const twigs = 7
	r := vhPruneTree(twigs)
	oldest := 4 + vsym.Choose("oldest", 3)
	r.evictTo(0, oldest)
	h0 := r.endBlock()
	r.check(h0, "evicted")
	// the store prunes up to a twig that is itself inactive
	end := 2 + vsym.Choose("end", oldest-2)
	r.tr.PruneTwigs(0, int64(end))
	r.afterPrune(end, oldest, twigs, "first prune")
	if oldest-1-end >= 2 {
		end2 := end + 2 + vsym.Choose("end2", oldest-1-end-1)
		r.tr.PruneTwigs(int64(end), int64(end2))
		r.afterPrune(end2, oldest, twigs, "second prune")
	}
	vsym.Reach("end")
}

// The same trees; after the prune the tree is closed and recovered from the
// edge nodes (through their stored form), the last pruned twig and the file
// sizes, at once, after one more entry, or after the tree has grown by a level; then a block with a deactivation and an append, a second recovery
// and, where possible, a further prune.
// verif: prop=C12 real=yes budget=200 tbudget=800
func VH_C12_PruneRecover() {
	const twigs = 7
	r := vhPruneTree(twigs)
	oldest := 4 + vsym.Choose("oldest", 3)
	r.evictTo(0, oldest)
	r.check(r.endBlock(), "evicted")
	end := 2 + vsym.Choose("end", oldest-2)
	edges := r.tr.PruneTwigs(0, int64(end))
	switch vsym.Choose("block before", 3) {
	case 1:
		r.put([]byte("x"))
		r.check(r.endBlock(), "block before the recovery")
	case 2: // the tree grows by a level
		r.dummies(2047)
		r.put([]byte("x"))
		r.check(r.endBlock(), "block before the recovery")
	}
	r.reopenPruned(edges, end, oldest, "recovery after the prune")
	r.afterPrune(end, oldest, twigs, "after the recovery")
	if oldest-1-end >= 2 {
		end2 := oldest - 1
		edges = r.tr.PruneTwigs(int64(end), int64(end2))
		r.check(r.tr.EndBlock(), "second prune")
		r.tr.WaitForFlushing()
		r.reopenPruned(edges, end2, oldest, "recovery after the second prune")
		r.afterPrune(end2, oldest, twigs, "after the second recovery")
	}
	vsym.Reach("end")
}

func (r *vhRef) reopenPruned(edges []byte, end, oldest int, what string) {
	s := r.sizes()
	r.tr.Close()
	tr, h := RecoverTree(vhBufSize, vhBlkSize, "./t", "", BytesToEdgeNodes(edges), int64(end-1), int64(oldest), r.next()>>11, s)
	r.tr = tr
	r.check(h, what)
}
