package rabbit

import (
	sha256 "github.com/minio/sha256-simd"

	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/zzv/vsym"
)

// Three keys; the short keys of the first two (thorough: three) jumps of each are arbitrary, so that they coincide in every
// pattern, those further on differ; three sets and deletes (thorough: five) of any key in any order after all
// keys were set or none was (quick: four then),
// the store being closed and written through its trunk to the root and opened anew after any of them; the touched key is
// read after each operation, every key at the write-through and at the end.
// verif: prop=C19 real=no budget=120 tbudget=850
func VH_C19_Collisions() {
	sha256.ArbReset()
	sha256.ArbFree = []int{1}
	sha256.ArbDepth = 2
	steps := 4
	if vsym.Thorough() {
		steps = 5
		sha256.ArbDepth = 3
	}
	keys := [][]byte{[]byte("a"), []byte("bb"), []byte("ccc")}
	want := make([][]byte, len(keys))
	root := store.NewMockRootStore()
	trunk := root.GetTrunkStore(10).(*store.TrunkStore)
	rbt := NewRabbitStore(trunk)
	check := func(i int, what string) {
		got := rbt.Get(keys[i])
		vsym.Assert((got != nil) == (want[i] != nil), what+": a key is found exactly if it is present")
		vsym.Assert(rbt.Has(keys[i]) == (want[i] != nil), what+": Has agrees")
		if got != nil && want[i] != nil {
			vsym.Assert(vsym.BytesEq(got, want[i]), what+": the value is the one last set")
		}
	}
	used := 0
	if vsym.Bool("all set") {
		used = len(keys)
		for i := range keys {
			want[i] = []byte{byte(i)}
			rbt.Set(keys[i], want[i])
		}
		if !vsym.Thorough() {
			steps = 3
		}
	}
	turn := vsym.Choose("write through after", steps+1)
	for s := 0; s < steps; s++ {
		k := vsym.Choose("key", len(keys))
		vsym.Assume(k <= used) // keys are interchangeable
		if k == used {
			used++
		}
		if vsym.Bool("set") {
			want[k] = []byte{byte(s), vsym.U8("v")}
			rbt.Set(keys[k], want[k])
		} else {
			want[k] = nil
			rbt.Delete(keys[k])
		}
		check(k, "after an operation")
		if s == turn {
			rbt.Close()
			rbt.WriteBack()
			if vsym.Bool("trunk") {
				trunk.Close(true)
				trunk = root.GetTrunkStore(10).(*store.TrunkStore)
			}
			rbt = NewRabbitStore(trunk)
			if vsym.Bool("read") {
				for i := range keys {
					check(i, "written through")
				}
			}
		}
	}
	for i := range keys {
		check(i, "at the end")
	}
	rbt.CloseAndWriteBack(true)
	trunk.Close(true)
	trunk = root.GetTrunkStore(10).(*store.TrunkStore)
	rbt = NewReadOnlyRabbitStore(trunk)
	for i := range keys {
		check(i, "all written through")
	}
	n := 0
	for i := range want {
		if want[i] != nil {
			n++
		}
	}
	vsym.Assert(n > 0 || root.ActiveCount() == 0, "nothing is left of a store whose keys are all deleted")
	vsym.Reach("end")
}
