package types

import "github.com/smartbch/moeingads/zzv/vsym"

// All 8-byte keys and all first bytes.
// verif: prop=C27
func VH_C27_Routing() {
	k := vsym.Bytes("k", 8)
	s := GetShardID(k)
	vsym.Assert(s >= 0 && s < ShardCount, "shard in range")
	k2 := vsym.Bytes("k2", 8)
	vsym.Assert(vsym.Implies(k[7] == k2[7], GetShardID(k2) == s), "the shard depends on the last byte only")
	vsym.Observe("shard", uint64(s))
	a, b := vsym.U8("a"), vsym.U8("b")
	ca, cb := GetIndexChanID(a), GetIndexChanID(b)
	vsym.Assert(ca >= 0 && ca < IndexChanCount, "channel in range")
	vsym.Assert(vsym.Implies(a>>2 == b>>2, ca == cb), "one bucket is fed by one channel")
	vsym.Observe("chan", uint64(ca))
	l := LimitRange(a)
	vsym.Assert(l >= 64 && l < 192, "LimitRange stays inside [64,192)")
	vsym.Reach("end")
}
