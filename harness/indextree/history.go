package indextree

import "github.com/smartbch/moeingads/zzv/vsym"

// Three blocks at arbitrary increasing heights (the first below 2^62, gaps up to 2^60), each setting or deleting
// one key; keys are arbitrary within two neighbouring ranges of 2^48 (top 16 bits 0x0000 and 0x0001),
// positions arbitrary below 2^48; two metadata records, one with 16 arbitrary bytes, lie beside; then
// any key is queried at any height up to 2^64-2. Pruning is off.
// verif: prop=C16 real=yes budget=150 tbudget=600
func VH_C16_Blocks() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	slots := []uint64{0, 1}
	tree, db, w := vhHistory(n, 1, slots, true)
	vhQuery(tree, w, slots)
	vhGetBoth(tree, vhModelOf(w), vhKey("k", slots))
	db.Close()
	vsym.Reach("end")
}

// One or two writes in each of two blocks (thorough: up to three), so that a key may change several
// times in one block; keys within one range of 2^48 whose top bytes are 0xffff or 0x1000.
// verif: prop=C16 real=yes budget=150 tbudget=600
func VH_C16_Repeated() {
	per := 2
	if vsym.Thorough() {
		per = 3
	}
	slots := [][]uint64{{0xffff}, {0x1000}}[vsym.Choose("range", 2)]
	tree, db, w := vhHistory(2, per, slots, true)
	vhQuery(tree, w, slots)
	db.Close()
	vsym.Reach("end")
}

func vhModelOf(w []vhHist) *vhModel {
	m := &vhModel{}
	for _, x := range w {
		if x.del {
			m.erase(x.k)
		} else {
			m.set(x.k, x.v)
		}
	}
	return m
}
