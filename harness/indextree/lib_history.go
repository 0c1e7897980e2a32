package indextree

import "github.com/smartbch/moeingads/zzv/vsym"

type vhHist struct {
	k   uint64
	h   uint64
	v   int64
	del bool
}

// vhAt is the last write of k at or below height h.
func vhAt(w []vhHist, k, h uint64) (v int64, ok bool) {
	for _, x := range w {
		hit := vsym.And(x.k == k, x.h <= h)
		v = vsym.IteI64(hit, x.v, v)
		ok = vsym.Or(vsym.And(hit, !x.del), vsym.And(!hit, ok))
	}
	return
}

func vhHistory(blocks, per int, slots []uint64, dels bool) (tree *NVTreeMem, db IKVDB, w []vhHist) {
	db, err := NewRocksDB("rocksdb", ".")
	if err != nil {
		panic(err)
	}
	tree = NewNVTreeMem(db)
	m := &vhModel{}
	h := vsym.U64("height") & (1<<62 - 1)
	for i := 0; i < blocks; i++ {
		if i > 0 {
			h += vsym.U64("gap")&(1<<60-1) + 1
		}
		db.OpenNewBatch()
		tree.BeginWrite(int64(h))
		n := 1
		if per > 1 {
			n = 1 + vsym.Choose("writes", per)
		}
		for j := 0; j < n; j++ {
			k := vhKey("k", slots)
			if len(w) > 0 && dels && vsym.Bool("del") {
				_, ok := m.get(k)
				vsym.Assume(ok)
				tree.Delete(vhBz(k))
				m.erase(k)
				w = append(w, vhHist{k, h, 0, true})
			} else {
				v := vhPos("v")
				tree.Set(vhBz(k), v)
				m.set(k, v)
				w = append(w, vhHist{k, h, v, false})
			}
		}
		if i == 0 {
			// the metadata beside the history
			db.CurrBatch().Set(append([]byte{0x10}, vsym.Bytes("mk", 16)...), []byte{1})
			db.CurrBatch().Set([]byte{0x10}, []byte{})
		}
		tree.EndWrite()
		db.CloseOldBatch()
	}
	return
}

func vhQuery(tree *NVTreeMem, w []vhHist, slots []uint64) {
	k := vhKey("qk", slots)
	h := vsym.U64("qh")
	vsym.Assume(h < 1<<64-1)
	v, ok := tree.GetAtHeight(vhBz(k), h)
	mv, mok := vhAt(w, k, h)
	vsym.Assert(vsym.Iff(ok, mok), "a key is found at a height exactly if the last change at or below it is not a deletion")
	if ok {
		vsym.Assert(v == mv, "the position in force at the height is returned")
	}
	vsym.Observe("v", uint64(v))
}
