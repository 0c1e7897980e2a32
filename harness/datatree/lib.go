package datatree

import (
	"os"

	"github.com/smartbch/moeingads/zzv/vsym"
)

func vhFile(bufferSize, blockSize int, dir string) EntryFile {
	_ = os.Mkdir(dir, 0700)
	ef, err := NewEntryFile(bufferSize, blockSize, dir)
	if err != nil {
		panic(err)
	}
	return ef
}

func vhSameEntry(a, b *Entry, what string) {
	vsym.Assert(vsym.BytesEq(a.Key, b.Key), what+": key")
	vsym.Assert(vsym.BytesEq(a.Value, b.Value), what+": value")
	vsym.Assert(vsym.BytesEq(a.NextKey, b.NextKey), what+": next key")
	vsym.Assert(a.Height == b.Height, what+": height")
	vsym.Assert(a.LastHeight == b.LastHeight, what+": last height")
	vsym.Assert(a.SerialNum == b.SerialNum, what+": serial number")
}

// vhCheckRecord reads the record at pos on every read path.
func vhCheckRecord(ef *EntryFile, pos, next int64, e *Entry, sns []int64) {
	r := ef.ReadEntry(pos)
	vhSameEntry(r, e, "plain read")
	r2, sns2, n2 := ef.ReadEntryAndSNList(pos)
	vhSameEntry(r2, e, "prefetching read")
	vsym.Assert(n2 == next, "next position of the prefetching read")
	vsym.Assert(len(sns2) == len(sns), "number of deactivated serial numbers")
	if len(sns2) == len(sns) {
		for i := range sns {
			vsym.Assert(sns2[i] == sns[i], "deactivated serial number")
		}
	}
	raw, n3 := ef.ReadEntryRawBytes(pos)
	vsym.Assert(n3 == next, "next position of the raw read")
	vsym.Assert(vsym.BytesEq(ExtractKeyFromRawBytes(raw), e.Key), "key of the raw read")
	vsym.Assert(ExtractSerialNum(raw) == e.SerialNum, "serial number of the raw read")
	pr := ef.ReadEntryBytesForProof(pos)
	vsym.Assert(vsym.BytesEq(pr, EntryToBytes(*e, sns)), "bytes for the proof")
}

func vhSymEntry(tag string, kl, vl, nl int) *Entry {
	return &Entry{
		Key:     vsym.Bytes(tag+"k", kl),
		Value:   vsym.Bytes(tag+"v", vl),
		NextKey: vsym.Bytes(tag+"n", nl),
		Height:  vsym.I64(tag + "h"), LastHeight: vsym.I64(tag + "lh"), SerialNum: vsym.I64(tag + "sn"),
	}
}

func vhSymSNs(tag string, n int) []int64 {
	sns := make([]int64, n)
	for i := range sns {
		sns[i] = vsym.I64(tag)
	}
	return sns
}
