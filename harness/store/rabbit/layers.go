package rabbit

import (
	"github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/zzv/vsym"
)

// Two keys in a transaction store over a trunk over a root over a MoeingADS with history: two blocks; in each a transaction of two (second block: one; thorough: two)
// sets or deletes of any key and, in the second, another of one; each transaction is written back or dropped, the second trunk too;
// reads of the open transaction, of a new one, of a read-only one and of read-only ones at both heights are compared with a map.
// verif: prop=C21,C19 real=yes budget=120 tbudget=600
func VH_C21_Transactions() {
	keys := [][]byte{[]byte("k1"), []byte("another key")}
	mads, err := moeingads.NewMoeingADS("./db", true, [][]byte{
		{0, 0, 0, 0, 0, 0, 0, 0}, {255, 255, 255, 255, 255, 255, 255, 255}})
	if err != nil {
		panic(err)
	}
	root := store.NewRootStore(mads, func(k []byte) bool { return k[0]&1 == 0 })
	check := func(r *RabbitStore, want [][]byte, what string) {
		for i, k := range keys {
			got := r.Get(k)
			vsym.Assert((got != nil) == (want[i] != nil), what+": a key is there exactly if its last write set it")
			vsym.Assert(r.Has(k) == (want[i] != nil), what+": Has agrees")
			if got != nil && want[i] != nil {
				vsym.Assert(vsym.BytesEq(got, want[i]), what+": the value is that of the last write")
			}
		}
	}
	base := make([][]byte, len(keys))
	var past [][][]byte
	n := 0
	for b := 0; b < 2; b++ {
		root.SetHeight(int64(10 + 10*b))
		trunk := root.GetTrunkStore(10).(*store.TrunkStore)
		in := base
		for t := 0; t <= b; t++ {
			cur := append([][]byte{}, in...)
			r := NewRabbitStore(trunk)
			ops := 2
			if b == 1 && (t == 1 || !vsym.Thorough()) {
				ops = 1
			}
			for i := 0; i < ops; i++ {
				k := vsym.Choose("key", len(keys))
				n++
				if vsym.Bool("set") {
					cur[k] = []byte{byte(n), vsym.U8("v")}
					r.Set(keys[k], vsym.CloneBytes(cur[k]))
				} else {
					cur[k] = nil
					r.Delete(keys[k])
				}
				check(&r, cur, "open transaction")
			}
			back := b == 0 || vsym.Bool("write back")
			r.CloseAndWriteBack(back)
			if back {
				in = cur
			}
			r2 := NewRabbitStore(trunk)
			check(&r2, in, "next transaction")
			r2.Close()
		}
		back := b == 0 || vsym.Bool("close with write back")
		trunk.Close(back)
		if back {
			base = in
		}
		past = append(past, base)
		for h, want := range past {
			r := NewReadOnlyRabbitStoreAtHeight(root, uint64(10+10*h))
			check(&r, want, "at a past height")
			r.Close()
		}
		r := NewReadOnlyRabbitStore(root)
		check(&r, base, "read-only")
		r.Close()
	}
	vsym.Reach("end")
}
