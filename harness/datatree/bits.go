package datatree

import "github.com/smartbch/moeingads/zzv/vsym"

// Every pattern of the 2048 bits of a twig, every leaf position written and
// every leaf position read.
// verif: prop=C26 real=yes budget=120
func VH_C26_Bits() {
	tw := CopyNullTwig()
	p := vsym.Bytes("p", 256)
	copy(tw.activeBits[:], p)
	off := int(vsym.Int("off", 0, 2047))
	o := int(vsym.Int("o", 0, 2047))
	before := tw.getBit(o)
	vsym.Assert(before == (p[o>>3]>>(uint(o)&7)&1 == 1), "bit o is bit o%8 of byte o/8")
	set := vsym.Bool("set")
	if set {
		tw.setBit(off)
	} else {
		tw.clearBit(off)
	}
	vsym.Assert(tw.getBit(off) == set, "the bit reads back as written")
	vsym.Assert(vsym.Or(o == off, tw.getBit(o) == before), "the other bits are untouched")
	vsym.Reach("end")
}

// A tree of two twigs whose twig 0 has every pattern of activity bits:
// activating or deactivating any leaf of it changes that leaf only, and the root at
// the block end is the root of the changed pattern.
// verif: prop=C26 real=yes budget=200
func VH_C26_Tree() {
	r := vhNewRef("./t")
	r.dummies(2050)
	r.endBlock()
	tw := r.tr.activeTwigs[0]
	p := vsym.Bytes("p", 32) // one 256-leaf group is symbolic, the rest a fixed pattern
	g := vsym.Choose("g", 8)
	for i := range tw.activeBits {
		tw.activeBits[i] = byte(i * 37)
	}
	copy(tw.activeBits[32*g:], p)
	copy(r.bits[0][:], tw.activeBits[:])
	sn := int64(256*g) + vsym.Int("sn", 0, 255)
	o := vsym.Int("o", 0, 2047)
	before := r.tr.GetActiveBit(o)
	for i := int64(0); i < 4; i++ {
		r.tr.touchedPosOf512b[i] = struct{}{}
	}
	if vsym.Choose("set", 2) == 1 {
		r.tr.ActiviateEntry(sn)
		r.bits[0][sn>>3] |= 1 << uint(sn&7)
		vsym.Assert(r.tr.GetActiveBit(sn), "an activated leaf is active")
	} else {
		r.deact(sn)
		vsym.Assert(!r.tr.GetActiveBit(sn), "a deactivated leaf is inactive")
	}
	vsym.Assert(vsym.Or(o == sn, r.tr.GetActiveBit(o) == before), "the other leaves keep their activity")
	r.check(r.endBlock(), "after the change")
	vsym.Reach("end")
}
