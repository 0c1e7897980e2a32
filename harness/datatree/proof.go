package datatree

import "github.com/smartbch/moeingads/zzv/vsym"

var vhSampleLeaves = []int64{0, 1, 2, 3, 7, 8, 127, 128, 255, 256, 257, 511, 512, 513, 767, 768, 1023, 1024, 1025, 1279, 1280, 1535, 1536, 1791, 1792, 2046, 2047}

// Every leaf of a youngest twig of 0..20 leaves, and 27 leaves (thorough: all)
// of an in-memory full twig, of an evicted twig and of a full twig with active leaves, in
// trees of 2, 3, 4, 5 and 6 twigs; the entries hold symbolic bytes.
// verif: prop=C08 real=yes budget=300 tbudget=850
func VH_C08_AllLeaves() {
	r := vhNewRef("./t")
	twigs := 1 + vsym.Choose("twigs", 5)
	for t := 0; t < twigs; t++ {
		if t%2 == 1 {
			r.put(vsym.Bytes("v", 2))
			r.dummies(254)
			r.put([]byte{1})
			r.put(vsym.Bytes("v", 1))
			r.dummies(2048 - 258)
			r.put([]byte{2})
		} else {
			r.dummies(2048)
		}
		if t == 2 {
			r.check(r.endBlock(), "twig 2")
			r.tr.EvictTwig(0)
			r.evicted[0] = true
		}
	}
	young := []int{0, 1, 2, 3, 20}[vsym.Choose("young", 5)]
	for i := 0; i < young; i++ {
		r.put([]byte{byte(i)})
	}
	if twigs > 1 && vsym.Choose("deact", 2) == 1 {
		r.deact(2048 + 255) // active
		r.deact(2048 + 256)
	}
	root := r.endBlock()
	r.check(root, "the tree")
	n := r.next()
	for _, o := range vhSampleLeaves {
		for t := int64(0); t < n>>11; t++ {
			r.prove(t<<11+o, root, "full twig")
		}
	}
	for sn := n &^ 2047; sn < n; sn++ {
		r.prove(sn, root, "youngest twig")
	}
	vsym.ObserveBytes("root", root[:])
	vsym.Reach("end")
}

// Every one of the 2048 leaves of an evicted twig, an in-memory twig and a
// youngest twig of 2047 leaves.
// verif: prop=C08 tier=thorough real=yes tbudget=850
func VH_C08_Every() {
	r := vhNewRef("./t")
	r.dummies(2048)
	for i := 0; i < 2048; i++ {
		r.put([]byte{byte(i), byte(i >> 8)})
	}
	r.endBlock()
	r.tr.EvictTwig(0)
	r.evicted[0] = true
	r.endBlock()
	for i := 0; i < 2040; i++ {
		r.put([]byte{byte(i), byte(i >> 8)})
	}
	r.deact(2048)
	root := r.endBlock()
	r.check(root, "the tree")
	sn := int64(vsym.Choose("part", 16)) << 9
	for i := int64(0); i < 512; i++ {
		if sn+i < r.next() {
			r.prove(sn+i, root, "leaf")
		}
	}
	vsym.Reach("end")
}
