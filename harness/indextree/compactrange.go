package indextree

import (
	"encoding/binary"

	"github.com/smartbch/moeingads/zzv/vsym"
	"github.com/tecbot/gorocksdb"
)

// Two records: any key of the index and a height (any), or metadata (first byte not zero, 1, 9 or 17 bytes in all); none, one or two prune
// heights are announced (arbitrary, in any order), then the whole database is compacted once.
// verif: prop=C18 real=no budget=60 tbudget=200
func VH_C18_Compact() {
	db := vhOpenDB()
	ph := uint64(0)
	type rec struct {
		k, v []byte
		meta bool
		h    uint64
	}
	var rs []rec
	db.OpenNewBatch()
	for i := 0; i < 2; i++ {
		var r rec
		switch vsym.Choose("kind", 4) {
		case 0:
			r.k = make([]byte, 17)
			copy(r.k[1:], vsym.Bytes("key", 8))
			r.h = vsym.U64("h")
			binary.BigEndian.PutUint64(r.k[9:], r.h)
		case 1:
			r.k, r.meta = vsym.Bytes("mk1", 1), true
		case 2:
			r.k, r.meta = vsym.Bytes("mk9", 9), true
		case 3:
			r.k, r.meta = vsym.Bytes("mk17", 17), true
		}
		if r.meta {
			vsym.Assume(r.k[0] != 0)
		}
		r.v = vsym.Bytes("v", 8*vsym.Choose("vlen", 2))
		for _, o := range rs {
			vsym.Assume(!vsym.BytesEq(o.k, r.k))
		}
		db.CurrBatch().Set(vsym.CloneBytes(r.k), vsym.CloneBytes(r.v))
		rs = append(rs, r)
	}
	db.CloseOldBatch()
	announced := vsym.Choose("announced", 3)
	for i := 0; i < announced; i++ {
		h := vsym.U64("prune")
		db.SetPruneHeight(h)
		if h > ph {
			ph = h
		}
		g, on := db.GetPruneHeight()
		vsym.Assert(on && g == ph, "the prune height is the highest announced")
	}
	if announced == 0 {
		_, on := db.GetPruneHeight()
		vsym.Assert(!on, "nothing is pruned before a prune height is announced")
	}
	db.DB().CompactRange(gorocksdb.Range{})
	for _, r := range rs {
		v := db.Get(r.k)
		if r.meta || announced == 0 || r.h >= ph {
			vsym.Assert(v != nil, "metadata and records not older than the prune height stay")
		}
		if v != nil {
			vsym.Assert(vsym.BytesEq(v, r.v), "a record that stays is not changed")
		}
	}
	vsym.Reach("end")
}

// One or two blocks set a key at arbitrary heights; a prune height above the last of them is announced and the database is compacted; the key is
// read at an arbitrary height above that. The failure listed as K2: the newest record of a
// key is removed although nothing supersedes it.
// verif: prop=C18 real=no budget=60 tbudget=100 known=K2
func VH_C18_Superseded() {
	tree, db, w := vhHistory(1+vsym.Choose("blocks", 2), 1, []uint64{1}, false)
	k := w[len(w)-1].k
	p, q := vsym.U64("prune"), vsym.U64("query")
	vsym.Assume(vsym.And(w[len(w)-1].h < p, vsym.And(p < q, q < 1<<64-1)))
	db.SetPruneHeight(p)
	db.(*RocksDB).DB().CompactRange(gorocksdb.Range{})
	v, ok := tree.GetAtHeight(vhBz(k), q)
	vsym.Assert(vsym.And(ok, v == w[len(w)-1].v), "the newest record of a key stays: it is in force")
	vsym.Reach("end")
}
