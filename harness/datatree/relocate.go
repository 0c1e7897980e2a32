package datatree

import (
	"os"

	"github.com/smartbch/moeingads/zzv/vsym"
)

// Every record (8-byte key and next key, value of 0, 1, 7, 8, 9, 16 or 17 (thorough: all to 17) symbolic
// bytes, so with every pattern of embedded delimiters up to two; all heights and serial numbers; 0..2 deactivated serial numbers) is read raw, given
// an arbitrary other serial number and appended by the tree with 0..2 (thorough; quick: 0..1) pending deactivations, and once more from there with 0 or 1.
// verif: prop=C05 real=yes budget=240 tbudget=600
func VH_C05_Raw() {
	vls := []int{0, 1, 7, 8, 9, 16, 17}
	if vsym.Thorough() {
		vls = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}
	}
	vl := vls[vsym.Choose("vl", len(vls))]
	e := vhSymEntry("e", 8, vl, 8)
	sns := vhSymSNs("dsn", vsym.Choose("sns", 3))
	_ = os.Mkdir("./t", 0700)
	tr := NewEmptyTree(512, 512*256, "./t", "")
	ef := tr.entryFile
	pos := ef.Append([2][]byte{EntryToBytes(*e, sns), nil})
	for round := 0; round < 2; round++ {
		m := 2
		if round == 0 && vsym.Thorough() {
			m = 3
		}
		pend := vhSymSNs("psn", vsym.Choose("pending", m))
		ef.Flush()
		raw, next := ef.ReadEntryRawBytes(pos)
		vsym.Assert(next == ef.Size(), "the record ends where the log ends")
		vsym.Assert(ExtractSerialNum(raw) == e.SerialNum, "the old serial number")
		vsym.Assert(vsym.BytesEq(ExtractKeyFromRawBytes(raw), e.Key), "the key")
		e.SerialNum = vsym.I64("new")
		UpdateSerialNum(raw, e.SerialNum)
		tr.deactivedSNList = append(tr.deactivedSNList, pend...)
		pos = tr.AppendEntryRawBytes(raw, int64(round))
		vsym.Assert(tr.DeactivedSNListSize() == 0, "the pending deactivations are written")
		ef.Flush()
		vhCheckRecord(ef, pos, ef.Size(), e, pend)
	}
	vsym.ObserveBytes("raw", ef.ReadEntryBytesForProof(pos))
	vsym.Reach("end")
}

// Twig 0 holds up to four live entries at its first, second, 1000th and last
// place (every subset), two of them with symbolic values of 1 or 8 (thorough also 16) bytes. It is
// relocated across the end of twig 1, the entries are read, the root is compared, the leaves are proven; the tree is recovered; and,
// for values of 1 byte (thorough: always), later the live entries of twigs 1 and 2 are relocated as well, and the tree is recovered once more.
// verif: prop=C05 real=yes budget=240 tbudget=800
func VH_C05_Relocate() {
	r := vhNewRef("./t")
	n := []int{1, 8}[vsym.Choose("len", 2)]
	if vsym.Thorough() && vsym.Bool("long") {
		n = 16
	}
	r.put(vsym.Bytes("v", n))
	r.put([]byte("two"))
	r.dummies(998)
	r.put(vsym.Bytes("v", n))
	r.dummies(1046)
	r.put(append(append([]byte("12345"), MagicBytes[:]...), 1, 2))
	if r.next() != 2048 {
		panic("setup")
	}
	r.dummies(2046)
	r.check(r.endBlock(), "setup")
	for _, sn := range []int64{0, 1, 1000, 2047} {
		if vsym.Bool("dead") {
			r.deact(sn)
		}
	}
	if vsym.Bool("own block") {
		r.check(r.endBlock(), "deactivations")
	}
	moved := r.relocate(0, "first relocation")
	r.evicted[0] = true
	if r.next() < 4096 {
		r.dummies(int(4096 - r.next()))
	}
	rounds := 1
	if n == 1 || vsym.Thorough() {
		rounds = 2
	}
	for i := 0; i < rounds; i++ {
		h := r.endBlock()
		r.check(h, "block")
		for _, sn := range moved {
			vhSameEntry(r.tr.ReadEntry(r.pos[sn]), r.entries[sn], "relocated entry")
			r.prove(sn, h, "relocated entry")
			vsym.Assert(r.tr.GetActiveBit(sn), "a relocated entry is active")
		}
		oldest := int64(2*i) + 1
		r.reopen("./t", oldest, r.sizes(), "recovery")
		for sn := oldest << 11; sn < r.next(); sn++ {
			if o := sn & 2047; o > 16 && o < 2030 {
				continue
			}
			vsym.Assert(r.tr.GetActiveBit(sn) == r.bit(sn), "activity bits are recovered")
		}
		if i == 0 && rounds == 2 {
			r.dummies(4100)
			r.check(r.endBlock(), "fill")
			moved = append(r.relocate(1, "second relocation"), r.relocate(2, "second relocation")...)
			r.evicted[1], r.evicted[2] = true, true
		}
	}
	h := r.endBlock()
	vsym.ObserveBytes("root", h[:])
	vsym.Reach("end")
}
