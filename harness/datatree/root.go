package datatree

import "github.com/smartbch/moeingads/zzv/vsym"

// Twig 0 full of dummies, twig 1 with 2045 leaves; then 2 blocks
// (thorough 3) of up to 3 operations each, an operation being an append with a symbolic
// value byte, the deactivation of an active leaf or a dummy append; block ends in between. The twig boundary is crossed at
// every point of the sequence.
// verif: prop=C10 real=yes budget=240 tbudget=800
func VH_C10_Boundary() {
	r := vhNewRef("./t")
	r.dummies(2048)
	a := r.put([]byte("a"))
	b := r.put([]byte("b"))
	r.dummies(2043)
	r.check(r.endBlock(), "setup")
	live := []int64{a, b}
	blocks := 2
	if vsym.Thorough() {
		blocks = 3
	}
	for i := 0; i < blocks; i++ {
		n := vsym.Choose("ops", 4)
		for j := 0; j < n; j++ {
			switch op := vsym.Choose("op", 3); op {
			case 0:
				live = append(live, r.put(vsym.Bytes("v", 1)))
			case 1:
				if len(live) > 0 {
					k := vsym.Choose("which", len(live))
					r.deact(live[k])
					live = append(append([]int64{}, live[:k]...), live[k+1:]...)
				}
			case 2:
				r.dummies(1)
			}
		}
		h := r.endBlock()
		r.check(h, "block")
		vsym.ObserveBytes("root", h[:])
	}
	vsym.Reach("end")
}

// Every leaf position of a full twig and of the youngest twig at once: two full
// twigs of live entries and a youngest twig of 5 leaves; one leaf with a symbolic serial number in
// twig 0, 1 or 2 is deactivated, then a second one.
// verif: prop=C10,C26 real=yes budget=300 tbudget=800
func VH_C10_AnyLeaf() {
	r := vhNewRef("./t")
	for i := 0; i < 2*2048+5; i++ {
		r.put([]byte{byte(i), byte(i >> 8)})
	}
	h0 := r.endBlock()
	r.check(h0, "setup")
	t1 := vsym.Choose("t1", 3)
	sn := vhAnyLeaf(t1)
	r.deact(sn)
	vsym.Assert(!r.tr.GetActiveBit(sn), "the bit read back is clear")
	h1 := r.endBlock()
	r.check(h1, "after one deactivation")
	vsym.Assert(!vhHashEq(h0, h1), "the deactivation is visible in the root")
	o := vsym.Int("o", 0, 2047)
	vsym.Assume(o != sn&2047)
	vsym.Assert(r.tr.GetActiveBit(int64(t1)<<11+o%int64(vhCount(t1))) || o%int64(vhCount(t1)) == sn&2047, "the other leaves of the twig stay active")
	if vsym.Thorough() {
		sn2 := vhAnyLeaf(vsym.Choose("t2", 3))
		r.deact(sn2)
		r.check(r.endBlock(), "after two deactivations")
	}
	vsym.Reach("end")
}

func vhCount(t int) int {
	if t < 2 {
		return 2048
	}
	return 4
}

func vhAnyLeaf(t int) int64 {
	return int64(t)<<11 + vsym.Int("sn", 0, int64(vhCount(t)-1))
}

// A tree that grows to ten twigs, an entry with a live record and 2047 dummies each; blocks end (all in one of four ways) one leaf before each twig is full, with
// its last leaf, with the first leaf of the next one, or only in every third twig; between them the live leaf of one of
// four twigs is deactivated once four, five or nine twigs are full; the root of every block is compared.
// verif: prop=C10 real=yes budget=200 tbudget=600
func VH_C10_Growth() {
	r := vhNewRef("./t")
	how := vsym.Choose("blocks", 4)
	done := false
	end := func(what string) {
		h := r.endBlock()
		r.check(h, what)
		vsym.ObserveBytes("root", h[:])
	}
	for t := 0; t < 10; t++ {
		r.put([]byte{byte(t)})
		if how == 2 && t > 0 {
			end("the first leaf of a twig")
		}
		if !done && (t == 9 || (t == 4 || t == 5) && vsym.Bool("now")) {
			done = true
			r.deact(int64([]int{0, 3, 4, t - 2}[vsym.Choose("which", 4)]) << 11)
			if how == 3 {
				end("a deactivation")
			}
		}
		r.dummies(2046)
		if how == 0 && t > 0 { // the store never ends a block in the first twig
			end("one leaf before a twig is full")
		}
		r.dummies(1)
		if how == 1 || how == 3 && t%3 == 2 {
			end("a full twig")
		}
	}
	r.put(vsym.Bytes("v", 1))
	end("last block")
	vsym.Reach("end")
}
