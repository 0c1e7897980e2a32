package store

import (
	"github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/store/types"
	"github.com/smartbch/moeingads/zzv/vsym"
)

// vhRoot is a root store over a real MoeingADS with a reference: ref[i] are the
// values of the keys after block i, whose height is hs[i].
type vhRoot struct {
	root  *RootStore
	keys  [][]byte
	cache int
	hist  bool
	dir   string
	h     int64
	ref   [][][]byte
	hs    []int64
}

func (r *vhRoot) open() {
	mads, err := moeingads.NewMoeingADS(r.dir, r.hist, [][]byte{
		{0, 0, 0, 0, 0, 0, 0, 0}, {255, 255, 255, 255, 255, 255, 255, 255}})
	if err != nil {
		panic(err)
	}
	var f func(k []byte) bool
	switch r.cache {
	case 1:
		f = func(k []byte) bool { return true }
	case 2:
		f = func(k []byte) bool { return k[3] == 1 }
	}
	r.root = NewRootStore(mads, f)
	r.root.SetHeight(r.h)
}

func (r *vhRoot) last() [][]byte {
	if len(r.ref) == 0 {
		return make([][]byte, len(r.keys))
	}
	return r.ref[len(r.ref)-1]
}

func (r *vhRoot) committed(v [][]byte) {
	r.ref = append(r.ref, v)
	r.hs = append(r.hs, r.h)
}

func vhSame(got, want []byte, what string) {
	vsym.Assert((got != nil) == (want != nil), what+": a key is there exactly if its last write set it")
	if got != nil && want != nil {
		vsym.Assert(vsym.BytesEq(got, want), what+": the value is that of the last write")
	}
}

// check compares the root's reads with the state last committed.
func (r *vhRoot) check(what string) {
	for i, k := range r.keys {
		vhSame(r.root.Get(k), r.last()[i], what)
		e := r.root.mads.GetEntry(k)
		vsym.Assert((e != nil) == (r.last()[i] != nil), what+": the database has the key exactly if the root has it")
		if e != nil {
			vhSame(e.Value, r.last()[i], what+", database")
		}
		if !r.hist {
			continue
		}
		for j := range r.ref {
			end := r.h + 1
			if j+1 < len(r.ref) {
				end = r.hs[j+1]
			}
			vhSame(r.root.GetAtHeight(k, uint64(end-1)), r.ref[j][i], what+", at a past height")
		}
	}
}

// The operations on a trunk: one write, as a transaction does it.
func vhWrite(ts types.BaseStoreI, keys [][]byte, cur [][]byte, n int) [][]byte {
	cur = append([][]byte{}, cur...)
	k := vsym.Choose("key", len(keys))
	if vsym.Bool("set") {
		cur[k] = []byte{byte(n), vsym.U8("v")}
		if n&1 == 1 {
			cur[k] = append(cur[k], make([]byte, 40)...)
		}
		ts.PrepareForUpdate(vsym.CloneBytes(keys[k]))
		ts.Update(func(db types.SetDeleter) { db.Set(keys[k], vsym.CloneBytes(cur[k])) })
	} else {
		cur[k] = nil
		ts.PrepareForDeletion(vsym.CloneBytes(keys[k]))
		ts.Update(func(db types.SetDeleter) { db.Delete(keys[k]) })
	}
	return cur
}

// Two keys in one shard (thorough: or a third in another); the root caches no key, every key or some (at most two per shard, so that entries are evicted),
// with or without history (quick: three combinations); a first block sets a subset through the root; then two trunk stores are used one
// after the other, each for one (thorough: two; quick: the first for two if all is cached) set or delete of any key (values of 1, 2, 13 and 42 bytes), and closed, the second (thorough: either) with or
// without writing back, at rising heights; every read of trunk, root and database, now and at the past heights, is
// compared with a map after each step; the store is closed, opened and compared (quick: if the last trunk was discarded).
// verif: prop=C21 real=yes budget=300 tbudget=850 const=RootCacheSizeLimit:1
func VH_C21_Layers() {
	r := &vhRoot{keys: [][]byte{{9, 0, 0, 1, 0, 0, 0, 3}, {9, 0, 0, 2, 0, 0, 0, 3}, {70, 0, 0, 1, 0, 0, 0, 99}}, h: 5, dir: "./db"}
	r.cache = vsym.Choose("cache", 3)
	r.hist = r.cache == 1
	if vsym.Thorough() {
		r.hist = vsym.Bool("history")
	}
	nk := 2
	if vsym.Thorough() {
		nk = 3
	}
	r.open()
	cur := make([][]byte, len(r.keys))
	for i, k := range r.keys {
		if i >= nk || i > 0 && !vsym.Bool("exists") {
			continue
		}
		cur[i] = append(make([]byte, 12*i), byte(i))
		r.root.PrepareForUpdate(k)
	}
	r.root.Update(func(db types.SetDeleter) {
		for i, k := range r.keys {
			if cur[i] != nil {
				db.Set(k, cur[i])
			}
		}
	})
	r.committed(cur)
	r.check("first block")
	for n := 0; n < 2; n++ {
		ts := r.root.GetTrunkStore(10).(*TrunkStore)
		cur := r.last()
		ops := 1
		if vsym.Thorough() || n == 0 && r.cache == 1 {
			ops = 2
		}
		for i := 0; i < ops; i++ {
			cur = vhWrite(ts, r.keys[:nk], cur, n*2+i)
			for j, k := range r.keys {
				vhSame(ts.Get(k), cur[j], "trunk")
				vhSame(r.root.Get(k), r.last()[j], "root while a trunk is open")
			}
		}
		back := n == 0 && !vsym.Thorough() || vsym.Bool("write back")
		if back {
			r.h += 2
			r.root.SetHeight(r.h)
		}
		ts.Close(back)
		if back {
			r.committed(cur)
		}
		r.check("trunk closed")
		if n == 1 && (!back || vsym.Thorough()) {
			r.root.Close()
			r.open()
			r.check("reopened")
		}
	}
	vsym.Reach("end")
}

// Two stores of three keys in one shard (the root of the first caches every key), with the same first block, a subset of the keys; a trunk of the first takes
// three (thorough: four) sets or deletes of any key; its cache content synchronizes the second store while the first
// is written back: both have the same reads and root hash, also after reopening (thorough), and the content is that of the operations' last
// writes; then a read-only trunk of the first reads the same, takes writes of its own, refuses to be written back, and is dropped without effect.
// verif: prop=C21,C24 real=yes budget=200 tbudget=850 const=RootCacheSizeLimit:1
func VH_C21_Sync() {
	keys := [][]byte{{9, 0, 0, 1, 0, 0, 0, 3}, {9, 0, 0, 2, 0, 0, 0, 3}, {70, 0, 0, 1, 0, 0, 0, 3}}
	cur := make([][]byte, len(keys))
	for i := range keys {
		if i == 0 || vsym.Bool("exists") {
			cur[i] = append(make([]byte, 12*i), byte(i))
		}
	}
	var r [2]*vhRoot
	for s := range r {
		r[s] = &vhRoot{keys: keys, cache: 1 - s, h: 5, dir: []string{"./db", "./follower"}[s]}
		r[s].open()
		for i, k := range keys {
			if cur[i] != nil {
				r[s].root.PrepareForUpdate(k)
			}
		}
		r[s].root.Update(func(db types.SetDeleter) {
			for i, k := range keys {
				if cur[i] != nil {
					db.Set(k, cur[i])
				}
			}
		})
		r[s].committed(cur)
	}
	same := func(what string) {
		for s := range r {
			r[s].check(what)
		}
		vsym.Assert(vsym.BytesEq(r[0].root.GetRootHash(), r[1].root.GetRootHash()), what+": the synchronized store has the root of the first")
	}
	same("first block")
	ts := r[0].root.GetTrunkStore(10).(*TrunkStore)
	first := cur
	ops := 3
	if vsym.Thorough() {
		ops = 4
	}
	touched := make([]bool, len(keys))
	for i := 0; i < ops; i++ {
		next := vhWrite(ts, keys, cur, i)
		for j := range keys {
			if len(next[j]) != len(cur[j]) || len(next[j]) > 0 && &next[j][0] != &cur[j][0] {
				touched[j] = true
			}
		}
		cur = next
	}
	content := ts.GetCacheContent()
	for j, k := range keys {
		v, ok := content[string(k)]
		vsym.Assert(ok || !touched[j], "the cache content has every key written")
		if ok {
			vsym.Assert(vsym.BytesEq([]byte(v), cur[j]), "the cache content has the value last written")
		} else {
			vhSame(cur[j], first[j], "a key outside the cache content")
		}
	}
	for s := range r {
		r[s].h = 8
		r[s].root.SetHeight(8)
	}
	SyncUpdateTo(content, r[1].root)
	ts.Close(true)
	for s := range r {
		r[s].committed(cur)
	}
	same("synchronized")

	ro := r[0].root.GetReadOnlyTrunkStore(10).(*TrunkStore)
	for j, k := range keys {
		vhSame(ro.Get(k), cur[j], "read-only trunk")
	}
	mine := vhWrite(ro, keys, cur, 9)
	for j, k := range keys {
		vhSame(ro.Get(k), mine[j], "read-only trunk after a write")
	}
	vsym.Assert(vsym.Panics(func() { ro.Close(true) }), "a read-only trunk is not written back")
	ro.Close(false)
	same("read-only trunk dropped")
	if vsym.Thorough() {
		for s := range r {
			r[s].root.Close()
			r[s].open()
		}
		same("reopened")
	}
	vsym.Reach("end")
}
