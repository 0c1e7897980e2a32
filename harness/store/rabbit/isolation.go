package rabbit

import (
	"sync"

	"github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/zzv/vsym"
)

func vhStore(cache int) *store.RootStore {
	mads, err := moeingads.NewMoeingADS("./db", true, [][]byte{
		{0, 0, 0, 0, 0, 0, 0, 0}, {255, 255, 255, 255, 255, 255, 255, 255}})
	if err != nil {
		panic(err)
	}
	var f func(k []byte) bool
	if cache == 1 {
		f = func(k []byte) bool { return true }
	}
	root := store.NewRootStore(mads, f)
	root.SetHeight(10)
	return root
}

func vhStates(t *store.TrunkStore, keys [][]byte, vals [][]byte) {
	r := NewRabbitStore(t)
	for i, k := range keys {
		if vals[i] != nil {
			r.Set(k, vals[i])
		} else {
			r.Delete(k)
		}
	}
	r.CloseAndWriteBack(true)
}

// vhAgrees says whether all values are those of one state.
func vhAgrees(got, want [][]byte) bool {
	for i := range got {
		if string(got[i]) != string(want[i]) {
			return false
		}
	}
	return true
}

// A root store, its keys all cached or none (quick: all for readers of the root, none for transactions), with two of three keys set in a first block; a block that changes the first, deletes the second and
// creates the third is written back from its trunk while another goroutine reads the three keys, and the first again, through a read-only
// transaction on the root (at the current or, thorough, at the last height) or in the root between RLock and RUnlock;
// any one (thorough: two) times the running goroutine is delayed until the others have run on as far as they can, at any synchronisation operation,
// or one (thorough) context switch to any goroutine occurs beside those forced by blocking. The reader finds the state of one block,
// the later one once the write-back has ended; both end; the store then has the later one.
// verif: prop=C30 real=no ncpu=2 budget=300 tbudget=850
func VH_C30_Readers() {
	how, cache := vsym.Choose("how", 3), 0
	if vsym.Thorough() {
		cache = vsym.Choose("cache", 2)
	} else {
		vsym.Assume(how != 1)
		cache = how / 2
	}
	root := vhStore(cache)
	keys := [][]byte{[]byte("k1"), []byte("another key"), []byte("third")}
	old := [][]byte{[]byte("old 1"), []byte("old 2"), nil}
	next := [][]byte{[]byte("the new 1"), nil, []byte("new 3")}
	trunk := root.GetTrunkStore(10).(*store.TrunkStore)
	vhStates(trunk, keys, old)
	trunk.Close(true)
	root.SetHeight(12)
	trunk = root.GetTrunkStore(10).(*store.TrunkStore)
	vhStates(trunk, keys, next)

	ended := false // the writer's, seen by the reader if it saw the end
	late := false
	var mtx sync.Mutex
	got := make([][]byte, 4)
	var wg sync.WaitGroup
	wg.Add(1)
	read := func() {
		mtx.Lock()
		late = ended
		mtx.Unlock()
		switch how {
		case 0:
			r := NewReadOnlyRabbitStore(root)
			for i := range got {
				got[i] = append([]byte(nil), r.Get(keys[i%3])...)
			}
			r.Close()
		case 1:
			r := NewReadOnlyRabbitStoreAtHeight(root, 12)
			for i := range got {
				got[i] = append([]byte(nil), r.Get(keys[i%3])...)
			}
			r.Close()
		default:
			root.RLock()
			var short [4][KeySize]byte
			t := store.NewMockRootStore() // the path of a key that meets no other is its first short key
			r := NewRabbitStore(t)
			for i, k := range keys {
				r.Set(k, []byte{1})
				p, _ := r.GetShortKeyPath(k)
				short[i] = p[0]
			}
			r.Close()
			short[3] = short[0]
			for i := range got {
				if bz := root.Get(short[i][:]); bz != nil {
					got[i] = append([]byte(nil), BytesToCachedValue(bz).GetValue()...)
				}
			}
			root.RUnlock()
		}
		wg.Done()
	}
	if vsym.Thorough() && vsym.Bool("switch") {
		vsym.Schedules(1)
	} else if vsym.Thorough() {
		vsym.Delays(2)
	} else {
		vsym.Delays(1)
	}
	go read()
	trunk.Close(true)
	mtx.Lock()
	ended = true
	mtx.Unlock()
	wg.Wait()
	vsym.Delays(0)
	vsym.Schedules(0)
	isNew := vhAgrees(got[:3], next) && string(got[3]) == string(next[0])
	isOld := vhAgrees(got[:3], old) && string(got[3]) == string(old[0])
	vsym.Assert(isNew || isOld, "a reader sees the state of one block")
	vsym.Assert(isNew || !late, "a reader that begins after the write-back sees it")
	r := NewReadOnlyRabbitStore(root)
	for i, k := range keys {
		vsym.Assert(string(r.Get(k)) == string(next[i]), "the store has the block written back")
	}
	r.Close()
	vsym.Reach("end")
}
