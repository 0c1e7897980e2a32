package datatree

import (
	"os"

	"github.com/smartbch/moeingads/zzv/vsym"
)

// vhRef is a reference model of a data tree: leaf hashes, activity bits and
// the pending deactivation list, with a root computed from scratch.
type vhRef struct {
	tr      *Tree
	leaves  [][32]byte       // by serial number
	bits    [][256]byte      // by twig
	left    map[int][32]byte // left roots of full twigs
	pend    []int64
	entries []*Entry
	pos     []int64
	sns     [][]int64
	evicted map[int64]bool
}

const vhBlk = 64

func vhNewRef(dir string) *vhRef {
	_ = os.Mkdir(dir, 0700)
	return &vhRef{tr: NewEmptyTree(vhBufSize, vhBlkSize, dir, ""), bits: make([][256]byte, 1), left: map[int][32]byte{}, evicted: map[int64]bool{}}
}

const (
	vhBufSize = 1024
	vhBlkSize = 1024 * 64
)

func (r *vhRef) next() int64 { return int64(len(r.leaves)) }

func (r *vhRef) note(e *Entry, leafBytes []byte, pos int64) {
	sn := r.next()
	r.leaves = append(r.leaves, vsym.Sha256(leafBytes))
	r.entries = append(r.entries, e)
	r.pos = append(r.pos, pos)
	r.sns = append(r.sns, r.pend)
	r.pend = nil
	if string(e.Key) != "dummy" {
		r.bits[sn>>11][(sn&2047)>>3] |= 1 << uint(sn&7)
	}
	if sn&2047 == 2047 {
		r.bits = append(r.bits, [256]byte{})
	}
}

// add appends an entry with the next serial number.
func (r *vhRef) add(e *Entry) int64 {
	e.SerialNum = r.next()
	bz := EntryToBytes(*e, r.pend)
	c := *e
	r.note(&c, bz, r.tr.AppendEntry(e))
	return e.SerialNum
}

func (r *vhRef) dummies(n int) {
	for i := 0; i < n; i++ {
		r.add(DummyEntry(r.next()))
	}
}

// put appends a live entry whose value is v.
func (r *vhRef) put(v []byte) int64 {
	return r.add(&Entry{Key: []byte("keykey01"), Value: v, NextKey: []byte("keykey02"), Height: 7, LastHeight: 5})
}

func (r *vhRef) deact(sn int64) {
	r.tr.DeactiviateEntry(sn)
	b := &r.bits[sn>>11]
	b[(sn&2047)>>3] &^= 1 << uint(sn&7)
	r.pend = append(r.pend, sn)
}

// flush writes pending deactivations the way the store does at a block end.
func (r *vhRef) flush() {
	if r.tr.DeactivedSNListSize() != 0 {
		sn := r.next()
		r.deact(sn)
		r.add(DummyEntry(sn))
	}
}

func (r *vhRef) endBlock() [32]byte {
	r.flush()
	h := r.tr.EndBlock()
	r.tr.WaitForFlushing()
	return h
}

func vhHash2(level byte, a, b []byte) [32]byte {
	x := make([]byte, 0, 65)
	x = append(x, level)
	x = append(x, a...)
	x = append(x, b...)
	return vsym.Sha256(x)
}

var vhNulls [64][32]byte // null nodes by level, 0..11: leaf tree, 12: twig root, above: upper levels

func vhInitNulls() {
	if vhNulls[12] != [32]byte{} {
		return
	}
	vhNulls[0] = vsym.Sha256([]byte{0, 40, 0, 0, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
		255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255})
	for l := 0; l < 11; l++ {
		vhNulls[l+1] = vhHash2(byte(l), vhNulls[l][:], vhNulls[l][:])
	}
	var z [256]byte
	a := vhBitsRoot(&z)
	vhNulls[12] = vhHash2(11, vhNulls[11][:], a[:])
	for l := 12; l < 40; l++ {
		vhNulls[l+1] = vhHash2(byte(l), vhNulls[l][:], vhNulls[l][:])
	}
}

func vhBitsRoot(bits *[256]byte) [32]byte {
	var l1 [4][32]byte
	for i := range l1 {
		l1[i] = vhHash2(8, bits[64*i:64*i+32], bits[64*i+32:64*i+64])
	}
	l20 := vhHash2(9, l1[0][:], l1[1][:])
	l21 := vhHash2(9, l1[2][:], l1[3][:])
	return vhHash2(10, l20[:], l21[:])
}

// vhLevels computes the levels of a Merkle tree padded on the right.
func vhLeftRoot(leaves [][32]byte) [32]byte {
	cur := leaves
	for l := 0; l < 11; l++ {
		var up [][32]byte
		for i := 0; i < len(cur); i += 2 {
			r := vhNulls[l]
			if i+1 < len(cur) {
				r = cur[i+1]
			}
			up = append(up, vhHash2(byte(l), cur[i][:], r[:]))
		}
		cur = up
	}
	if len(cur) == 0 {
		return vhNulls[11]
	}
	return cur[0]
}

func (r *vhRef) twigRoot(t int) [32]byte {
	l, ok := r.left[t]
	if !ok {
		end := (t + 1) * 2048
		if end > len(r.leaves) {
			end = len(r.leaves)
		}
		l = vhLeftRoot(r.leaves[t*2048 : end])
		if end == (t+1)*2048 {
			r.left[t] = l
		}
	}
	a := vhBitsRoot(&r.bits[t])
	return vhHash2(11, l[:], a[:])
}

// root is the Merkle root over the leaf hashes and activity bits. The right
// edge is padded with constants: at the twig level with the root of an empty
// twig, at an upper level with the constant this code base uses there.
func (r *vhRef) root() [32]byte {
	vhInitNulls()
	young := len(r.leaves) >> 11
	var cur [][32]byte
	for t := 0; t <= young; t++ {
		cur = append(cur, r.twigRoot(t))
	}
	for l := 12; len(cur) > 1; l++ {
		var up [][32]byte
		for i := 0; i < len(cur); i += 2 {
			pad := vhNulls[12]
			if l > 12 {
				pad = vhNulls[l+1]
			}
			if i+1 < len(cur) {
				pad = cur[i+1]
			}
			up = append(up, vhHash2(byte(l), cur[i][:], pad[:]))
		}
		cur = up
	}
	return cur[0]
}

func vhHashEq(a, b [32]byte) bool { return vsym.BytesEq(a[:], b[:]) }

func (r *vhRef) check(h [32]byte, what string) {
	ref := r.root()
	vsym.Assert(vhHashEq(h, ref), what+": root equals the root computed from scratch")
}

func (r *vhRef) bit(sn int64) bool { return r.bits[sn>>11][(sn&2047)>>3]>>uint(sn&7)&1 == 1 }

func (r *vhRef) sizes() []int64 {
	a, b := r.tr.GetFileSizes()
	return []int64{a, b}
}

// reopen closes the tree and recovers it from its files.
func (r *vhRef) reopen(dir string, oldest int64, sizes []int64, what string) {
	r.tr.Close()
	tr, h := RecoverTree(vhBufSize, vhBlkSize, dir, "", nil, -1, oldest, r.next()>>11, sizes)
	r.tr = tr
	r.check(h, what)
}

// checkState compares bits and live entries.
func (r *vhRef) checkState(oldest int64, live []int64, what string) {
	for sn := oldest << 11; sn < r.next(); sn++ {
		vsym.Assert(r.tr.GetActiveBit(sn) == r.bit(sn), what+": activity bits are recovered")
	}
	for _, sn := range live {
		vhSameEntry(r.tr.ReadEntry(r.pos[sn]), r.entries[sn], what)
	}
	a, b := r.tr.GetFileSizes()
	vsym.Observe("entry file", uint64(a))
	vsym.Observe("twig file", uint64(b))
}

// someOps does up to n operations.
func (r *vhRef) someOps(live []int64, max int) []int64 {
	n := vsym.Choose("ops", max+1)
	for j := 0; j < n; j++ {
		switch vsym.Choose("op", 3) {
		case 0:
			live = append(live, r.put(vsym.Bytes("v", 1)))
		case 1:
			if len(live) > 0 {
				k := vsym.Choose("which", len(live))
				r.deact(live[k])
				live = append(append([]int64{}, live[:k]...), live[k+1:]...)
			}
		case 2:
			r.dummies(1)
		}
	}
	return live
}

// vhProve checks the proof of one leaf.
func (r *vhRef) prove(sn int64, root [32]byte, what string) {
	e, pos := r.entries[sn], r.pos[sn]
	bz := r.tr.ReadEntryBytesForProof(pos)
	vsym.Assert(vsym.BytesEq(bz, EntryToBytes(*e, r.sns[sn])), what+": the stored entry is what was appended")
	p := r.tr.GetProof(sn)
	vsym.Assert(p != nil, what+": there is a proof")
	if p == nil {
		return
	}
	vsym.Assert(vhHashEq(p.Root, root), what+": the proof is against the reported root")
	vsym.Assert(p.Check(false) == nil, what+": the proof verifies")
	vsym.Assert(vhHashEq(p.LeftOfTwig[0].SelfHash, vsym.Sha256(bz)), what+": the leaf is the hash of the stored entry")
	g := sn & 2047 / 256
	if !r.evicted[sn>>11] {
		vsym.Assert(vsym.BytesEq(p.RightOfTwig[0].SelfHash[:], r.bits[sn>>11][g*32:g*32+32]), what+": the activity bits are proven")
	}
	ser := p.ToBytes()
	q, err := BytesToProofPath(ser)
	vsym.Assert(err == nil, what+": the serialized proof parses")
	if err != nil {
		return
	}
	vsym.Assert(q.SerialNum == sn && vhHashEq(q.Root, root), what+": serial number and root survive serialization")
	vsym.Assert(q.Check(true) == nil, what+": the parsed proof verifies")
	vsym.Assert(q.Check(false) == nil, what+": the completed proof verifies")
	vsym.Assert(vsym.BytesEq(q.ToBytes(), ser), what+": serializing again gives the same bytes")
	vsym.Assert(*q.pp0() == *p.pp0(), what+": the parsed proof is the generated one")
	out, err := r.tr.GetProofBytesAndCheck(sn, bz)
	vsym.Assert(err == nil && vsym.BytesEq(out, ser), what+": proof bytes")
}

func (pp *ProofPath) pp0() *[11]ProofNode { return &pp.LeftOfTwig }

// relocate moves the live entries of a twig the way the store's compaction does.
func (r *vhRef) relocate(twig int64, what string) (moved []int64) {
	var want []int64
	for sn := twig << 11; sn < (twig+1)<<11; sn++ {
		if r.bit(sn) {
			want = append(want, sn)
		}
	}
	for bz := range r.tr.GetActiveEntriesInTwig(twig) {
		sn := ExtractSerialNum(bz)
		vsym.Assert(len(want) > 0, what+": no entry beyond the live ones")
		if len(want) == 0 {
			break
		}
		vsym.Assert(sn == want[0], what+": the live entries in order")
		sn = want[0]
		want = want[1:]
		r.deact(sn)
		e := *r.entries[sn]
		e.SerialNum = r.next()
		UpdateSerialNum(bz, e.SerialNum)
		vsym.Assert(vsym.BytesEq(ExtractKeyFromRawBytes(bz), e.Key), what+": the key")
		leaf := EntryToBytes(e, r.pend)
		moved = append(moved, e.SerialNum)
		r.note(&e, leaf, r.tr.AppendEntryRawBytes(bz, e.SerialNum))
	}
	vsym.Assert(len(want) == 0, what+": every live entry")
	r.tr.EvictTwig(twig)
	return
}
