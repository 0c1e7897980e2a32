package datatree

import "github.com/smartbch/moeingads/zzv/vsym"

// One record between two others: every 8-byte key and next key, every value of
// 0..17 bytes (thorough 0..20), all heights and serial numbers, 0..2 deactivated
// serial numbers, in a log with a 128-byte buffer and 256-byte segments; the
// record starts in the first segment and may straddle or touch its end. All read paths, before and after reopening.
// verif: prop=C04 real=yes budget=240
func VH_C04_RoundTrip() {
	maxv := 18
	if vsym.Thorough() {
		maxv = 21
	}
	vl := vsym.Choose("vl", maxv)
	e := vhSymEntry("e", 8, vl, 8)
	sns := vhSymSNs("dsn", vsym.Choose("sns", 3))
	ef := vhFile(128, 256, "./e")
	first := &Entry{Key: []byte("k"), Value: []byte("0123456789"), NextKey: []byte("n"), Height: 1, LastHeight: 2, SerialNum: 3}
	p0 := ef.Append([2][]byte{EntryToBytes(*first, nil), nil})
	p1 := ef.Append([2][]byte{EntryToBytes(*e, sns), nil})
	last := vhSymEntry("l", 2, 9, 0)
	p2 := ef.Append([2][]byte{EntryToBytes(*last, sns), nil})
	p3 := ef.Append([2][]byte{EntryToBytes(*e, nil), nil})
	end := ef.Size()
	ef.Flush()
	vhCheckRecord(&ef, p1, p2, e, sns)
	vhCheckRecord(&ef, p0, p1, first, nil)
	vhCheckRecord(&ef, p2, p3, last, sns)
	vhCheckRecord(&ef, p3, end, e, nil)
	ef.Close()
	ef2 := vhFile(128, 256, "./e")
	vhCheckRecord(&ef2, p1, p2, e, sns)
	vsym.Observe("p1", uint64(p1))
	vsym.Observe("p2", uint64(p2))
	vsym.ObserveBytes("raw", EntryToBytes(*e, sns))
	ef2.Close()
	vsym.Reach("end")
}

// Keys of 0..17 bytes and next keys of 0..9 bytes, symbolic, one-byte value.
// verif: prop=C04 real=yes budget=120
func VH_C04_KeyLengths() {
	kl := vsym.Choose("kl", 18)
	nl := vsym.Choose("nl", 10)
	e := vhSymEntry("e", kl, 1, nl)
	ef := vhFile(256, 256, "./e")
	p0 := ef.Append([2][]byte{EntryToBytes(*e, nil), nil})
	p1 := ef.Append([2][]byte{EntryToBytes(*e, []int64{7}), nil})
	end := ef.Size()
	ef.Flush()
	vhCheckRecord(&ef, p0, p1, e, nil)
	vhCheckRecord(&ef, p1, end, e, []int64{7})
	vsym.Reach("end")
}

// Deactivation lists of 3, 63, 64, 65, 128 and 255 serial numbers, the first, one
// in the middle and the last one symbolic; symbolic 9-byte value.
// verif: prop=C04 real=yes budget=120
func VH_C04_SNLists() {
	n := []int{3, 63, 64, 65, 127, 128, 255}[vsym.Choose("n", 7)]
	sns := make([]int64, n)
	for i := range sns {
		sns[i] = int64(i) * 1000003
	}
	sns[0], sns[n/2], sns[n-1] = vsym.I64("a"), vsym.I64("b"), vsym.I64("c")
	e := vhSymEntry("e", 8, 9, 8)
	ef := vhFile(4096, 8192, "./e")
	p0 := ef.Append([2][]byte{EntryToBytes(*e, sns), nil})
	p1 := ef.Append([2][]byte{EntryToBytes(*e, nil), nil})
	p2 := ef.Append([2][]byte{EntryToBytes(*e, sns), nil})
	end := ef.Size()
	ef.Flush()
	vhCheckRecord(&ef, p0, p1, e, sns)
	vhCheckRecord(&ef, p1, p2, e, nil)
	vhCheckRecord(&ef, p2, end, e, sns)
	vsym.Reach("end")
}

// Values of 200, 300, 65520, 70000 and 262200 bytes (thorough also 1000000) with a
// symbolic window of 9 bytes that may hold the delimiter, near the start, at a
// multiple of 256 or at the end of the value; buffer 1 MiB, segment 1 MiB.
// verif: prop=C04 real=yes budget=240
func VH_C04_LongValues() {
	lens := []int{200, 300, 65520, 70000, 262200}
	if vsym.Thorough() {
		lens = append(lens, 262144-76, 1000000)
	}
	n := lens[vsym.Choose("len", len(lens))]
	v := make([]byte, n)
	for i := 0; i < n; i += 97 {
		v[i] = byte(i)
	}
	w := vsym.Bytes("w", 9)
	switch vsym.Choose("at", 3) {
	case 0:
		copy(v, w)
	case 1:
		copy(v[(n-9)/256*256:], w)
	case 2:
		copy(v[n-9:], w)
	}
	e := &Entry{Key: vsym.Bytes("k", 8), Value: v, NextKey: []byte("nextnext"), Height: 1, LastHeight: 2, SerialNum: vsym.I64("sn")}
	ef := vhFile(1<<20, 1<<20, "./e")
	p0 := ef.Append([2][]byte{EntryToBytes(*e, []int64{5}), nil})
	p1 := ef.Append([2][]byte{EntryToBytes(*e, nil), nil})
	end := ef.Size()
	ef.Flush()
	vhCheckRecord(&ef, p0, p1, e, []int64{5})
	vhCheckRecord(&ef, p1, end, e, nil)
	vsym.Reach("end")
}
