package indextree

import (
	"encoding/binary"

	"github.com/smartbch/moeingads/zzv/vsym"
)

// vhModel is the reference: the writes in order.
type vhModel struct {
	keys []uint64
	vals []int64
	del  []bool
}

func (m *vhModel) set(k uint64, v int64) {
	m.keys, m.vals, m.del = append(m.keys, k), append(m.vals, v), append(m.del, false)
}

func (m *vhModel) erase(k uint64) {
	m.keys, m.vals, m.del = append(m.keys, k), append(m.vals, 0), append(m.del, true)
}

// get is the value of the last write of k.
func (m *vhModel) get(k uint64) (v int64, ok bool) {
	for i, x := range m.keys {
		eq := x == k
		v = vsym.IteI64(eq, m.vals[i], v)
		ok = vsym.Or(vsym.And(eq, !m.del[i]), vsym.And(!eq, ok))
	}
	return
}

// liveAt says whether write i is the last one of its key and not a deletion.
func (m *vhModel) liveAt(i int) bool {
	l := !m.del[i]
	for j := i + 1; j < len(m.keys); j++ {
		l = vsym.And(l, m.keys[j] != m.keys[i])
	}
	return l
}

// count is the number of live keys in [a, b); all: no upper bound.
func (m *vhModel) count(a, b uint64) int64 {
	n := int64(0)
	for i, k := range m.keys {
		n += vsym.IteI64(vsym.And(m.liveAt(i), vsym.And(k >= a, k < b)), 1, 0)
	}
	return n
}

func vhBz(k uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], k)
	return b[:]
}

// vhKey is an index key: its slot (the two upper bytes) is one of the given
// ones, the other six bytes are arbitrary.
func vhKey(name string, slots []uint64) uint64 {
	s := slots[vsym.Choose(name+"_slot", len(slots))]
	return s<<48 | vsym.U64(name)&(1<<48-1)
}

func vhPos(name string) int64 {
	return int64(vsym.U64(name) & (1<<48 - 1))
}

// vhScan walks an iterator and compares it with the reference.
func vhScan(it Iterator, m *vhModel, a, b uint64, max int, rev bool) {
	n := int64(0)
	var last uint64
	for it.Valid() && int(n) <= max {
		kb := it.Key()
		k := binary.BigEndian.Uint64(kb)
		v := it.Value()
		vsym.Observe("k", k)
		vsym.Assert(vsym.And(k >= a, k < b), "keys of an iterator lie in its range")
		if n > 0 && rev {
			vsym.Assert(k < last, "a reverse iterator descends")
		} else if n > 0 {
			vsym.Assert(k > last, "a forward iterator ascends")
		}
		mv, ok := m.get(k)
		vsym.Assert(ok, "an iterator yields live keys only")
		vsym.Assert(mv == v, "an iterator yields the latest position")
		last = k
		n++
		it.Next()
	}
	it.Close()
	if a >= b {
		vsym.Assert(n == 0, "an empty range yields nothing")
	} else {
		vsym.Assert(n == m.count(a, b), "an iterator yields every live key in its range")
	}
}

func vhU64(b []byte) uint64 { return binary.BigEndian.Uint64(b) }

func vhGetBoth(tree *NVTreeMem, m *vhModel, k uint64) {
	v, ok := tree.Get(vhBz(k))
	mv, mok := m.get(k)
	vsym.Assert(vsym.Iff(ok, mok), "a key is found exactly if it is live")
	if ok {
		vsym.Assert(v == mv, "the latest position is returned")
	}
}

func vhHas(m *vhModel, k uint64) bool {
	_, ok := m.get(k)
	return ok
}

var vhSlots = []uint64{0, 1, 0xffff}

func vhWrites(n int) (*NVTreeMem, *vhModel) {
	tree := NewNVTreeMem(nil)
	m := &vhModel{}
	tree.BeginWrite(1)
	for i := 0; i < n; i++ {
		k := vhKey("k", vhSlots)
		if i > 0 && vsym.Bool("del") {
			_, ok := m.get(k)
			vsym.Assume(ok)
			tree.Delete(vhBz(k))
			m.erase(k)
		} else {
			v := vhPos("v")
			tree.Set(vhBz(k), v)
			m.set(k, v)
		}
	}
	tree.EndWrite()
	return tree, m
}

func vhOpenDB() *RocksDB {
	db, err := NewRocksDB("rocksdb", ".")
	if err != nil {
		panic(err)
	}
	return db.(*RocksDB)
}
