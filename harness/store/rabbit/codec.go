package rabbit

import "github.com/smartbch/moeingads/zzv/vsym"

// Keys up to 5 bytes, values up to 5 bytes, every pass-by count and both empty states.
// verif: prop=C20
func VH_C20_RoundTrip() {
	kl := vsym.Choose("kl", 6)
	vl := vsym.Choose("vl", 6)
	key, val := vsym.Bytes("k", kl), vsym.Bytes("v", vl)
	pn := vsym.U32("passby")
	empty := vsym.Bool("empty")
	cv := &CachedValue{isEmpty: empty, passbyNum: pn, key: key, value: val}
	bz := cv.ToBytes()
	vsym.ObserveBytes("bz", bz)
	r := BytesToCachedValue(bz)
	vsym.Assert(r != nil, "a serialised hole parses")
	if r == nil {
		return
	}
	vsym.Assert(r.IsEmpty() == empty, "empty flag survives")
	vsym.Assert(r.passbyNum == pn, "pass-by count survives")
	vsym.Assert(vsym.BytesEq(r.GetKey(), key), "key survives")
	if !r.IsEmpty() {
		vsym.Assert(vsym.BytesEq(r.GetValue(), val), "value survives")
	}
	vsym.Reach("end")
}

// Every buffer of at most 14 bytes: parsing never panics, and re-serialising
// what was parsed gives an equivalent hole.
// verif: prop=C20
func VH_C20_AnyBytes() {
	n := vsym.Choose("n", 15)
	b := vsym.Bytes("b", n)
	r := BytesToCachedValue(b)
	if r == nil {
		vsym.Reach("end")
		return
	}
	vsym.Reach("parsed")
	s := BytesToCachedValue(r.ToBytes())
	vsym.Assert(s != nil, "what was parsed serialises to something that parses")
	if s != nil {
		vsym.Assert(vsym.BytesEq(s.GetKey(), r.GetKey()), "same key")
		vsym.Assert(vsym.BytesEq(s.GetValue(), r.GetValue()), "same value")
		vsym.Assert(s.IsEmpty() == r.IsEmpty() && s.passbyNum == r.passbyNum, "same state")
	}
	vsym.Reach("end")
}
