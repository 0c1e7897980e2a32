package metadb

import (
	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/types"
	"github.com/smartbch/moeingads/zzv/vsym"
)

// Two (thorough: three) twigs with arbitrary ids below 2^40 in any shards become full at arbitrary heights, one of them may be
// deleted again; after commit and reload the height of an arbitrary twig of any shard is queried.
// The serial number counter is set to just before the end of the twig.
// verif: prop=C17 real=yes budget=60 tbudget=300
func VH_C17_TwigHeights() {
	kvdb, err := indextree.NewRocksDB("rocksdb", ".")
	if err != nil {
		panic(err)
	}
	db := NewMetaDB(kvdb)
	kvdb.OpenNewBatch()
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	q, qs := int64(vsym.U64("qtwig")&(1<<40-1)), vsym.Choose("qshard", types.ShardCount)
	want := int64(-1)
	for j := 0; j < n; j++ {
		s := vsym.Choose("shard", types.ShardCount)
		t := int64(vsym.U64("twig")&(1<<40-1)) + 1
		h := vsym.I64("height")
		db.SetCurrHeight(h)
		db.maxSerialNum[s] = t<<11 - 1
		db.IncrMaxSerialNum(s)
		vsym.Assert(db.GetYoungestTwigID(s) == t, "a full twig is followed by the next")
		if s == qs {
			want = vsym.IteI64(t == q, h, want)
		}
	}
	if vsym.Bool("delete") {
		s := vsym.Choose("dshard", types.ShardCount)
		t := int64(vsym.U64("dtwig") & (1<<40 - 1))
		db.DeleteTwigHeight(s, t)
		if s == qs {
			want = vsym.IteI64(t == q, -1, want)
		}
	}
	db.Commit()
	kvdb.CloseOldBatch()
	db = NewMetaDB(kvdb)
	db.ReloadFromKVDB()
	vsym.Assert(db.GetTwigHeight(qs, q) == want, "the height of a twig is the one last recorded for it")
	vsym.Reach("end")
}
