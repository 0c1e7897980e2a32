package indextree

import (
	"github.com/smartbch/moeingads/types"
	"github.com/smartbch/moeingads/zzv/vsym"
)

type vhPair struct {
	k, v []byte
	del  bool
}

// vhPairs is a history of operations on byte strings.
type vhPairs []vhPair

// get is the value of the last operation on k: the index of the operation + 1, 0 if there is none or it is a deletion.
func (p vhPairs) get(k []byte) (v byte, ok bool) {
	for _, x := range p {
		eq := vsym.BytesEq(x.k, k)
		v = vsym.IteU8(eq, x.v[0], v)
		ok = vsym.Or(vsym.And(eq, !x.del), vsym.And(!eq, ok))
	}
	return
}

func (p vhPairs) live(i int) bool {
	l := !p[i].del
	for j := i + 1; j < len(p); j++ {
		l = vsym.And(l, !vsym.BytesEq(p[i].k, p[j].k))
	}
	return l
}

func vhInRange(k, a, b []byte) bool {
	ok := true
	if a != nil {
		ok = vsym.And(ok, !vsym.BytesLess(k, a))
	}
	if b != nil {
		ok = vsym.And(ok, vsym.BytesLess(k, b))
	}
	return ok
}

// vhBound is nil, the empty string or up to max arbitrary bytes.
func vhBound(name string, max int) []byte {
	n := vsym.Choose(name+"_len", max+2)
	if n == 0 {
		return nil
	}
	if n == 1 {
		return []byte{}
	}
	return vsym.Bytes(name, n-1)
}

func (p vhPairs) scan(it types.Iterator, a, b []byte, rev bool, what string) {
	n := int64(0)
	var last []byte
	for it.Valid() && n <= int64(len(p)) {
		k, v := it.Key(), it.Value()
		vsym.ObserveBytes("k", k)
		vsym.Assert(vhInRange(k, a, b), what+": keys lie in the range")
		if n > 0 && rev {
			vsym.Assert(vsym.BytesLess(k, last), what+": keys descend")
		} else if n > 0 {
			vsym.Assert(vsym.BytesLess(last, k), what+": keys ascend")
		}
		pv, ok := p.get(k)
		vsym.Assert(vsym.And(ok, len(v) == 1), what+": only stored pairs are yielded")
		if len(v) == 1 {
			vsym.Assert(pv == v[0], what+": the value is the one stored")
		}
		last = k
		n++
		it.Next()
	}
	vsym.Assert(!it.Valid(), what+": an exhausted iterator stays so")
	it.Close()
	want := int64(0)
	for i := range p {
		want += vsym.IteI64(vsym.And(p.live(i), vhInRange(p[i].k, a, b)), 1, 0)
	}
	vsym.Assert(n == want, what+": every stored pair in the range is yielded")
}

// Three (thorough: four) pairs stored in one batch, keys of one or two arbitrary bytes; both bounds nil, empty or of one or two
// arbitrary bytes; a forward and a reverse iteration.
// verif: prop=C18 real=yes budget=120 tbudget=600
func VH_C18_Range() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	db := vhOpenDB()
	var p vhPairs
	db.OpenNewBatch()
	for i := 0; i < n; i++ {
		x := vhPair{vsym.Bytes("k", 1+vsym.Choose("klen", 2)), vsym.Bytes("v", 1), false}
		db.CurrBatch().Set(vsym.CloneBytes(x.k), vsym.CloneBytes(x.v))
		p = append(p, x)
	}
	db.CloseOldBatch()
	a, b := vhBound("start", 2), vhBound("end", 2)
	if vsym.Bool("reverse") {
		it := db.ReverseIterator(a, b)
		p.scan(it, a, b, true, "reverse")
	} else {
		it := db.Iterator(a, b)
		p.scan(it, a, b, false, "forward")
	}
	db.Close()
	vsym.Reach("end")
}

// One stored pair, then a batch of two (thorough: three) operations on keys of one byte, by the
// current batch or a separate one; a key is read before and after closing; a second batch is dropped.
// verif: prop=C18 real=yes budget=60 tbudget=300
func VH_C18_Batch() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	db := vhOpenDB()
	p := vhPairs{{vsym.Bytes("k0", 1), vsym.Bytes("v0", 1), false}}
	db.Set(vsym.CloneBytes(p[0].k), vsym.CloneBytes(p[0].v))
	kind := vsym.Choose("batch", 3)
	var bt types.Batch
	if kind == 0 {
		db.OpenNewBatch()
		bt = db.CurrBatch()
	} else {
		bt = db.NewBatch()
	}
	q := vsym.Bytes("q", 1)
	read := func(what string) {
		v := db.Get(vsym.CloneBytes(q))
		pv, ok := p.get(q)
		vsym.Assert(vsym.Iff(v != nil, ok), what+": a key is found exactly if it is stored")
		vsym.Assert(db.Has(vsym.CloneBytes(q)) == (v != nil), what+": Has agrees with Get")
		if v != nil {
			vsym.Assert(len(v) == 1 && v[0] == pv, what+": the value is the one last written")
		}
	}
	var ops vhPairs
	for i := 0; i < n; i++ {
		x := vhPair{vsym.Bytes("k", 1), vsym.Bytes("v", 1), vsym.Bool("del")}
		k, v := vsym.CloneBytes(x.k), vsym.CloneBytes(x.v)
		if x.del {
			bt.Delete(k)
		} else {
			bt.Set(k, v)
		}
		k[0], v[0] = 0, 0 // the batch keeps its own copy
		ops = append(ops, x)
	}
	read("before the batch is closed")
	switch kind {
	case 0:
		db.CloseOldBatch()
	case 1:
		bt.Write()
	case 2:
		bt.WriteSync()
	}
	bt.Close()
	p = append(p, ops...)
	read("after the batch is closed")
	db.OpenNewBatch()
	db.CurrBatch().Set([]byte{7}, []byte{7})
	read("while another batch is open")
	db.Close()
	db = vhOpenDB()
	read("after reopening")
	db.Close()
	vsym.Reach("end")
}
