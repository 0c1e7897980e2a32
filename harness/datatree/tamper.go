package datatree

import "github.com/smartbch/moeingads/zzv/vsym"

// Any 2 serialized proofs with 1 or 2 upper levels, every byte of
// them symbolic except that both claim the same serial number (8 patterns, thorough 40) and the same
// root: if both verify they agree on the leaf, its activity bits and every peer.
// verif: prop=C09 real=yes budget=240 tbudget=800
func VH_C09_Unique() {
	pats := []int64{0, 1, 0x7ff, 0x555, 0x2aa, 0x100, 0x800, 0xabc}
	if vsym.Thorough() {
		for i := int64(0); i < 32; i++ {
			pats = append(pats, (i*0x12f+7)&0xfff)
		}
	}
	sn := pats[vsym.Choose("sn", len(pats))]
	u1, u2 := 1+vsym.Choose("u1", 2), 1+vsym.Choose("u2", 2)
	root := vsym.Bytes("root", 32)
	p, a := vhSymProof("p", u1, sn, root)
	q, b := vhSymProof("q", u2, sn, root)
	if p == nil || q == nil {
		vsym.Assert(false, "a proof of a valid length parses")
		return
	}
	if p.Check(true) != nil || q.Check(true) != nil {
		vsym.Reach("end")
		return
	}
	vsym.Assert(u1 == u2, "verifying proofs against one root have one length")
	vsym.Assert(vsym.BytesEq(a, b), "two verifying proofs of one serial number are the same")
	vsym.Reach("end")
}

func vhSymProof(tag string, upper int, sn int64, root []byte) (*ProofPath, []byte) {
	bz := []byte{byte(sn), byte(sn >> 8), byte(sn >> 16), byte(sn >> 24), byte(sn >> 32), byte(sn >> 40), byte(sn >> 48), byte(sn >> 56)}
	bz = append(bz, vsym.Bytes(tag, 32*(1+11+1+3+upper))...)
	bz = append(bz, root...)
	p, err := BytesToProofPath(bz)
	if err != nil {
		return nil, nil
	}
	return p, bz
}

func vhProofTree() (*vhRef, [32]byte) {
	r := vhNewRef("./t")
	r.dummies(2048)
	for i := 0; i < 2048; i++ {
		r.put([]byte{byte(i), byte(i >> 8)})
	}
	for i := 0; i < 600; i++ {
		r.put([]byte{byte(i), byte(i >> 8)})
	}
	r.deact(2049)
	root := r.endBlock()
	return r, root
}

// A tree of three twigs. Every byte string of the length of a proof that ends
// with the root of the tree and claims one of 12 serial numbers (thorough 60) plus any multiple
// of the number of leaves the proof can address: if it verifies it is the proof the tree generates.
// verif: prop=C09 real=yes budget=240 tbudget=800
func VH_C09_Forge() {
	r, root := vhProofTree()
	sns := []int64{0, 1, 2047, 2048, 2049, 2050, 3000, 4095, 4096, 4097, 4500, 4695}
	if vsym.Thorough() {
		for i := int64(0); i < 48; i++ {
			sns = append(sns, i*97+13)
		}
	}
	sn := sns[vsym.Choose("sn", len(sns))]
	good := r.tr.GetProof(sn)
	gb := good.ToBytes()
	hi := vsym.I64("hi")
	n := uint(11 + len(good.UpperPath))
	claimed := hi<<n | sn
	bz := make([]byte, 8)
	for i := range bz {
		bz[i] = byte(claimed >> (8 * uint(i)))
	}
	bz = append(bz, vsym.Bytes("p", len(gb)-40)...)
	bz = append(bz, root[:]...)
	p, err := BytesToProofPath(bz)
	vsym.Assert(err == nil, "it parses")
	if err != nil || p.Check(true) != nil {
		vsym.Reach("end")
		return
	}
	vsym.Assert(p.SerialNum == sn, "a verifying proof claims a serial number of the tree")
	vsym.Assert(vsym.BytesEq(p.ToBytes(), gb), "a verifying proof is the one the tree generates")
	vsym.Reach("end")
}

// The same tree: the genuine proof of one of 6 leaves with any one 32-byte
// field of its serialized form, or its serial number, replaced by anything else fails.
// verif: prop=C09 real=yes budget=240 tbudget=800
func VH_C09_Tamper() {
	r, _ := vhProofTree()
	sn := []int64{0, 2048, 2303, 2304, 4095, 4600}[vsym.Choose("sn", 6)]
	gb := r.tr.GetProof(sn).ToBytes()
	bz := vsym.CloneBytes(gb)
	k := vsym.Choose("field", (len(gb)-8)/32+1)
	if k == 0 {
		copy(bz, vsym.Bytes("w", 8))
		if !vsym.Thorough() { // quick: one bit of the serial number is flipped
			copy(bz, gb[:8])
			x := vsym.Choose("bit", 64)
			bz[x/8] ^= 1 << uint(x%8)
		}
	} else {
		copy(bz[8+32*(k-1):], vsym.Bytes("w", 32))
	}
	vsym.Assume(!vsym.BytesEq(bz, gb))
	p, err := BytesToProofPath(bz)
	vsym.Assert(err == nil, "it parses")
	if err == nil {
		vsym.Assert(p.Check(true) != nil, "an altered proof does not verify")
	}
	vsym.Reach("end")
}

// The same tree: a complete proof structure with any self or peer hash
// (or the root) replaced by anything else fails the complete check.
// verif: prop=C09 real=yes budget=240 tbudget=800
func VH_C09_TamperNode() {
	r, _ := vhProofTree()
	sn := []int64{0, 2303, 4600}[vsym.Choose("sn", 3)]
	p := r.tr.GetProof(sn)
	w := vsym.Bytes("w", 32)
	var nodes []*ProofNode
	for i := range p.LeftOfTwig {
		nodes = append(nodes, &p.LeftOfTwig[i])
	}
	for i := range p.RightOfTwig {
		nodes = append(nodes, &p.RightOfTwig[i])
	}
	for i := range p.UpperPath {
		nodes = append(nodes, &p.UpperPath[i])
	}
	k := vsym.Choose("node", 2*len(nodes)+1)
	var target []byte
	switch {
	case k < len(nodes):
		target = nodes[k].SelfHash[:]
	case k < 2*len(nodes):
		target = nodes[k-len(nodes)].PeerHash[:]
	default:
		target = p.Root[:]
	}
	vsym.Assert(p.Check(false) == nil, "the genuine proof verifies")
	vsym.Assume(!vsym.BytesEq(w, target))
	copy(target, w)
	vsym.Assert(p.Check(false) != nil, "an altered proof does not verify")
	_, err := CheckProof(p)
	vsym.Assert(err != nil, "CheckProof refuses it")
	vsym.Reach("end")
}

// Every byte string of 0..47 bytes and of the lengths 8+32k-1, 8+32k, 8+32k+1 for
// k = 15..21: parsing and checking never panic and
// what parses serializes to the same bytes.
// verif: prop=C09 real=yes budget=240 tbudget=800
func VH_C09_Parse() {
	n := vsym.Choose("n", 48+21)
	if n >= 48 {
		n -= 48
		n = 8 + 32*(15+n/3) + n%3 - 1
	}
	bz := vsym.Bytes("b", n)
	if n >= 8 {
		// the serial number steers the control flow: four patterns
		copy(bz, [][]byte{{0, 0, 0, 0, 0, 0, 0, 0}, {255, 255, 255, 255, 255, 255, 255, 255}, {0x55, 5, 0, 0, 0, 0, 0, 0}, {0xaa, 0xa, 0, 0, 0, 0, 0, 0x80}}[vsym.Choose("sn", 4)])
	}
	keep := vsym.CloneBytes(bz)
	p, err := BytesToProofPath(bz)
	if err == nil {
		vsym.Reach("parsed")
		vsym.Assert(vsym.BytesEq(p.ToBytes(), keep), "a parsed proof serializes to the same bytes")
		_ = p.Check(true)
		vsym.Assert(vsym.BytesEq(p.ToBytes(), keep), "checking does not change the serialized form")
	}
	vsym.Reach("end")
}
