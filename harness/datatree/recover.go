package datatree

import "github.com/smartbch/moeingads/zzv/vsym"

// Twig 0 full (two live entries), twig 1 with 2046 leaves (two live entries);
// one block of up to 2 operations (thorough 3) (append with a symbolic value, deactivation,
// dummy) that crosses the twig boundary at every point; twig 0 evicted or not
// when nothing in it is live and twig 1 is full (the oldest active twig of a
// store is never the youngest one). After the block is committed, up to 2 further
// appends reach the files without being committed. The tree is closed and
// recovered with the committed sizes, compared, changed by up to n-1 operations,
// and recovered once more.
// verif: prop=C11 real=yes budget=200 tbudget=800
func VH_C11_Recover() {
	r := vhNewRef("./t")
	r.dummies(2046)
	live := []int64{r.put([]byte("a")), r.put([]byte("b"))}
	live = append(live, r.put([]byte("c")), r.put([]byte("d")))
	r.dummies(2044)
	r.check(r.endBlock(), "setup")
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	live = r.someOps(live, n)
	oldest := int64(0)
	if (len(live) == 0 || live[0] > 2047) && r.next() >= 4096 {
		if vsym.Bool("evict") {
			r.tr.EvictTwig(0)
			oldest = 1
		}
	}
	h := r.endBlock()
	r.check(h, "block")
	sizes := r.sizes()
	if x := vsym.Choose("extra", 2) * 2; x > 0 {
		for i := 0; i < x; i++ {
			e := DummyEntry(r.next() + int64(i))
			r.tr.AppendEntry(e)
		}
		r.tr.EndBlock()
		r.tr.WaitForFlushing()
	}
	r.reopen("./t", oldest, sizes, "recovery")
	r.checkState(oldest, live, "recovery")
	live = r.someOps(live, n-1)
	r.check(r.endBlock(), "block after the recovery")
	r.reopen("./t", oldest, r.sizes(), "second recovery")
	r.checkState(oldest, live, "second recovery")
	vsym.Reach("end")
}

// Three full twigs and a youngest one of 1..3 leaves, or of none: the oldest
// active twig is each of 0, 1, 2, with the twigs below it evicted in one block
// or in several; the tree is recovered, one entry is appended and one (at an
// arbitrary place of an active twig) deactivated.
// verif: prop=C11 real=yes budget=200 tbudget=800
func VH_C11_Oldest() {
	r := vhNewRef("./t")
	for t := 0; t < 3; t++ {
		r.dummies(1000)
		r.put([]byte{byte(t)})
		r.put([]byte{byte(t), 1})
		r.dummies(1046)
	}
	oldest := int64(vsym.Choose("oldest", 3))
	for t := int64(0); t < oldest; t++ {
		r.deact(t<<11 + 1000)
		r.deact(t<<11 + 1001)
		r.tr.EvictTwig(t)
		if vsym.Bool("split") {
			r.check(r.endBlock(), "setup")
		}
	}
	tail := vsym.Choose("tail", 3)
	for i := 0; i < tail; i++ {
		r.put([]byte{byte(i)})
	}
	if r.next()&2047 == 0 {
		// nothing was appended to the youngest twig
		vsym.Reach("empty youngest twig")
	}
	r.check(r.endBlock(), "block")
	r.reopen("./t", oldest, r.sizes(), "recovery")
	for sn := oldest << 11; sn < r.next(); sn++ {
		vsym.Assert(r.tr.GetActiveBit(sn) == r.bit(sn), "activity bits are recovered")
	}
	t := vsym.Choose("t", int(3-oldest)) + int(oldest)
	r.deact(int64(t)<<11 + 1000)
	r.check(r.endBlock(), "after a deactivation")
	r.put(vsym.Bytes("v", 1))
	h := r.endBlock()
	r.check(h, "after an append")
	vsym.ObserveBytes("root", h[:])
	vsym.Reach("end")
}
