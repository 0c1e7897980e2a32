package datatree

import (
	"github.com/smartbch/moeingads/types"
	"github.com/smartbch/moeingads/zzv/vsym"
)

// Two full twigs and a youngest one with live entries whose values are symbolic
// (1 byte, or 8 bytes and so possibly the delimiter), dummies, deactivation lists and entries
// relocated in raw form; both scans, from twig 0 and from twig 1, report every record once, in
// order, with its position, serial number, key and deactivation list.
// verif: prop=C25 real=yes budget=200 tbudget=600
func VH_C25_Scan() {
	r := vhNewRef("./t")
	n := []int{1, 8}[vsym.Choose("len", 2)]
	r.put(vsym.Bytes("v", n))
	r.put([]byte("b"))
	r.dummies(2044)
	r.put(vsym.Bytes("v", 1))
	r.put([]byte{})
	r.dummies(2040)
	r.put([]byte("c"))
	r.check(r.endBlock(), "setup")
	for i := 0; i < vsym.Choose("deact", 3); i++ {
		r.deact([]int64{1, 2046}[i])
	}
	if vsym.Bool("relocate") {
		r.relocate(0, "relocation")
	}
	r.dummies(8)
	r.put(vsym.Bytes("v", n))
	r.endBlock()
	if vsym.Bool("reopen") {
		r.reopen("./t", 0, r.sizes(), "recovery")
	}
	for from := int64(0); from < 2; from++ {
		sn := from << 11
		ch := make(chan types.EntryX, 4)
		go r.tr.ScanEntries(from, ch)
		for x := range ch {
			vsym.Assert(sn < r.next(), "full scan: no record beyond the last one")
			if sn >= r.next() {
				break
			}
			vsym.Assert(x.Pos == r.pos[sn], "full scan: position")
			vhSameEntry(x.Entry, r.entries[sn], "full scan")
			vsym.Assert(len(x.DeactivedSNList) == len(r.sns[sn]), "full scan: length of the deactivation list")
			if len(x.DeactivedSNList) == len(r.sns[sn]) {
				for i, s := range r.sns[sn] {
					vsym.Assert(x.DeactivedSNList[i] == s, "full scan: deactivated serial number")
				}
			}
			sn++
		}
		vsym.Assert(sn == r.next(), "full scan: every record")
		sn = from << 11
		lite := make(chan types.KeyAndPos, 4)
		go r.tr.ScanEntriesLite(from, lite)
		for x := range lite {
			vsym.Assert(sn < r.next(), "light scan: no record beyond the last one")
			if sn >= r.next() {
				break
			}
			vsym.Assert(x.Pos == r.pos[sn] && x.SerialNum == r.entries[sn].SerialNum, "light scan: position and serial number")
			vsym.Assert(vsym.BytesEq(x.Key, r.entries[sn].Key), "light scan: key")
			sn++
		}
		vsym.Assert(sn == r.next(), "light scan: every record")
	}
	vsym.Reach("end")
}
