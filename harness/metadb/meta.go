package metadb

import (
	"encoding/binary"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/types"
	"github.com/smartbch/moeingads/zzv/vsym"
)

type vhShard struct {
	mt, ent, pruned, sn, oldest int64
	edge                        []byte
	root                        [32]byte
	th                          map[int64]int64
}

type vhRef struct {
	h int64
	s [types.ShardCount]vhShard
}

func (r *vhRef) copy() *vhRef {
	c := *r
	for i := range c.s {
		m := map[int64]int64{}
		for k, v := range r.s[i].th {
			m[k] = v
		}
		c.s[i].th = m
	}
	return &c
}

func vhMeta() (*MetaDB, indextree.IKVDB) {
	kvdb, err := indextree.NewRocksDB("rocksdb", ".")
	if err != nil {
		panic(err)
	}
	return NewMetaDB(kvdb), kvdb
}

// mem compares what is kept in memory, disk what is kept in the database.
func (r *vhRef) mem(db *MetaDB) {
	vsym.Assert(db.GetCurrHeight() == r.h, "the height is the one recorded")
	for i := range r.s {
		s := &r.s[i]
		vsym.Assert(db.GetLastPrunedTwig(i) == s.pruned, "the last pruned twig is the one recorded")
		vsym.Assert(db.GetMaxSerialNum(i) == s.sn, "the serial number counter is the one recorded")
		vsym.Assert(db.GetYoungestTwigID(i) == s.sn>>11, "the youngest twig is that of the counter")
		vsym.Assert(db.GetOldestActiveTwigID(i) == s.oldest, "the oldest active twig is the one recorded")
		rt := db.GetRootHash(i)
		vsym.Assert(vsym.BytesEq(rt[:], s.root[:]), "the root hash is the one recorded")
	}
}

func (r *vhRef) disk(db *MetaDB, twigs int64) {
	for i := range r.s {
		s := &r.s[i]
		vsym.Assert(db.GetTwigMtFileSize(i) == s.mt, "the twig file size is the one recorded")
		vsym.Assert(db.GetEntryFileSize(i) == s.ent, "the entry file size is the one recorded")
		e := db.GetEdgeNodes(i)
		vsym.Assert(vsym.BytesEq(e, s.edge), "the edge nodes are those recorded")
		for t := int64(0); t < twigs; t++ {
			h, ok := s.th[t]
			if !ok {
				h = -1
			}
			vsym.Assert(db.GetTwigHeight(i, t) == h, "the height of a twig is the one recorded")
		}
	}
}

func (r *vhRef) incr(db *MetaDB, i int) {
	db.IncrMaxSerialNum(i)
	s := &r.s[i]
	s.sn++
	if s.sn&2047 == 0 {
		s.th[s.sn>>11] = r.h
	}
}

// set records a value of every kind for one shard.
func (r *vhRef) set(db *MetaDB, i int, incr int) {
	s := &r.s[i]
	s.mt, s.ent, s.pruned = vsym.I64("mt"), vsym.I64("entry"), vsym.I64("pruned")
	db.SetTwigMtFileSize(i, s.mt)
	db.SetEntryFileSize(i, s.ent)
	db.SetLastPrunedTwig(i, s.pruned)
	s.edge = vsym.Bytes("edge", 2)
	db.SetEdgeNodes(i, vsym.CloneBytes(s.edge))
	copy(s.root[:], vsym.Bytes("root", 32))
	db.SetRootHash(i, s.root)
	for j := 0; j < incr; j++ {
		r.incr(db, i)
	}
	db.IncrOldestActiveTwigID(i)
	s.oldest++
}

func (r *vhRef) one(db *MetaDB) {
	i := vsym.Choose("shard", types.ShardCount)
	s := &r.s[i]
	switch vsym.Choose("setter", 9) {
	case 0:
		r.h = vsym.I64("height")
		db.SetCurrHeight(r.h)
	case 1:
		s.mt = vsym.I64("v")
		db.SetTwigMtFileSize(i, s.mt)
	case 2:
		s.ent = vsym.I64("v")
		db.SetEntryFileSize(i, s.ent)
	case 3:
		s.pruned = vsym.I64("v")
		db.SetLastPrunedTwig(i, s.pruned)
	case 4:
		s.edge = vsym.Bytes("v", vsym.Choose("len", 4))
		db.SetEdgeNodes(i, vsym.CloneBytes(s.edge))
	case 5:
		copy(s.root[:], vsym.Bytes("v", 32))
		db.SetRootHash(i, s.root)
	case 6:
		r.incr(db, i)
	case 7:
		db.IncrOldestActiveTwigID(i)
		s.oldest++
	case 8:
		t := int64(vsym.Choose("twig", 3))
		db.DeleteTwigHeight(i, t)
		delete(s.th, t)
	}
}

// A fresh database; one block records arbitrary values of every kind for one of the eight shards (any) and for
// its neighbour, with 2048 and 1 (or 2047 and 4096) new serial numbers; the index records an arbitrary key
// in the same batch; commit; a second block makes one (thorough: two) further records of any kind for
// any shard, and is committed or lost; the database is closed, opened and reloaded.
// verif: prop=C17 real=yes budget=120 tbudget=600
func VH_C17_Restart() {
	db, kvdb := vhMeta()
	r := &vhRef{}
	kvdb.OpenNewBatch()
	db.Init()
	for i := range r.s {
		r.s[i].pruned = -1
		r.s[i].th = map[int64]int64{}
	}
	kvdb.CloseOldBatch()
	r.mem(db)

	kvdb.OpenNewBatch()
	r.h = vsym.I64("height")
	db.SetCurrHeight(r.h)
	i := vsym.Choose("first", types.ShardCount)
	n := vsym.Choose("full", 2)
	r.set(db, i, []int{2048, 4096}[n])
	r.set(db, (i+1)&7, []int{1, 2047}[n])
	tree := indextree.NewNVTreeMem(kvdb)
	tree.BeginWrite(vsym.I64("iheight"))
	k := make([]byte, 8)
	binary.BigEndian.PutUint64(k, vsym.U64("ikey")&(1<<48-1)|0x1000<<48)
	tree.Set(k, vsym.I64("ipos"))
	tree.EndWrite()
	db.Commit()
	kvdb.CloseOldBatch()
	r.mem(db)

	old := r.copy()
	kvdb.OpenNewBatch()
	r.one(db)
	if vsym.Thorough() {
		r.one(db)
	}
	r.mem(db)
	if vsym.Bool("committed") {
		db.Commit()
		kvdb.CloseOldBatch()
		r.disk(db, 3)
	} else {
		r = old
	}
	db.Close()
	kvdb.Close()
	db, kvdb = vhMeta()
	db.ReloadFromKVDB()
	r.mem(db)
	r.disk(db, 3)
	kvdb.Close()
	vsym.Reach("end")
}
