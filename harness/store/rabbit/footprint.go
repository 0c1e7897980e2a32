package rabbit

import (
	sha256 "github.com/minio/sha256-simd"

	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/types"
	"github.com/smartbch/moeingads/zzv/vsym"
)

// vhSpy stands between a transaction and its trunk and records what passes.
type vhSpy struct {
	types.BaseStoreI
	found, update, deletion, set, gone map[string]bool
}

func vhNewSpy(below types.BaseStoreI) *vhSpy {
	m := func() map[string]bool { return make(map[string]bool) }
	return &vhSpy{below, m(), m(), m(), m(), m()}
}

func (s *vhSpy) Get(key []byte) []byte {
	v := s.BaseStoreI.Get(key)
	if v != nil {
		s.found[string(key)] = true
	}
	return v
}

func (s *vhSpy) PrepareForUpdate(key []byte) {
	s.update[string(key)] = true
	s.BaseStoreI.PrepareForUpdate(key)
}

func (s *vhSpy) PrepareForDeletion(key []byte) {
	s.deletion[string(key)] = true
	s.BaseStoreI.PrepareForDeletion(key)
}

func (s *vhSpy) Update(f func(db types.SetDeleter)) {
	s.BaseStoreI.Update(func(db types.SetDeleter) { f(&vhSpyDB{db, s}) })
}

type vhSpyDB struct {
	db types.SetDeleter
	s  *vhSpy
}

func (d *vhSpyDB) Set(key, value []byte) {
	vsym.Assert(!d.s.set[string(key)] && !d.s.gone[string(key)], "a cell is written back once")
	d.s.set[string(key)] = true
	d.db.Set(key, value)
}

func (d *vhSpyDB) Delete(key []byte) {
	vsym.Assert(!d.s.set[string(key)] && !d.s.gone[string(key)], "a cell is written back once")
	d.s.gone[string(key)] = true
	d.db.Delete(key)
}

// Three keys; the short keys of the first two jumps of each are arbitrary, so that they coincide in every pattern, those further on differ;
// a first transaction sets a subset; the second gets, sets or deletes any key, three times (thorough: four): what it reports as touched and as
// dirty is compared with what it read from its trunk, prepared there and writes back, and the reported path of a key with the cells that have it.
// verif: prop=C29 real=no budget=100 tbudget=600
func VH_C29_Footprint() {
	sha256.ArbReset()
	sha256.ArbFree = []int{1}
	sha256.ArbDepth = 2
	steps := 3
	if vsym.Thorough() {
		steps = 4
	}
	keys := [][]byte{[]byte("a"), []byte("bb"), []byte("ccc")}
	has := make([]bool, len(keys))
	root := store.NewMockRootStore()
	trunk := root.GetTrunkStore(10).(*store.TrunkStore)
	first := NewRabbitStore(trunk)
	n := vsym.Choose("present", len(keys)+1)
	for i := 0; i < n; i++ {
		first.Set(keys[i], []byte{7, byte(i)})
		has[i] = true
	}
	first.CloseAndWriteBack(true)

	spy := vhNewSpy(trunk)
	rbt := NewRabbitStore(spy)
	vsym.Assert(rbt.IsClean(), "a new transaction touched nothing")
	wrote := false
	for s := 0; s < steps; s++ {
		k := vsym.Choose("key", len(keys))
		switch vsym.Choose("op", 3) {
		case 0:
			rbt.Get(keys[k])
		case 1:
			rbt.Set(keys[k], []byte{8, byte(s)})
			has[k], wrote = true, true
		default:
			rbt.Delete(keys[k])
			wrote = wrote || has[k]
			has[k] = false
		}
		path, ok := rbt.GetShortKeyPath(keys[k])
		vsym.Assert(ok == has[k], "a path is reported exactly for a present key")
		if ok {
			cv := rbt.sms.GetCachedValue(path[len(path)-1])
			vsym.Assert(cv != nil && string(cv.GetKey()) == string(keys[k]), "the path of a key ends at its cell")
			for _, p := range path[:len(path)-1] {
				cv := rbt.sms.GetCachedValue(p)
				vsym.Assert(cv != nil && string(cv.GetKey()) != string(keys[k]), "the path of a key leads over cells of other keys")
			}
		}
	}
	touched, dirty := map[string]bool{}, map[string]bool{}
	rbt.ScanAllShortKeys(func(key [KeySize]byte, d bool) bool {
		vsym.Assert(!touched[string(key[:])], "a cell is reported once")
		touched[string(key[:])] = true
		if d {
			dirty[string(key[:])] = true
		}
		return false
	})
	vsym.Assert(rbt.CachedEntryCount() == len(touched), "the number of touched cells")
	vsym.Assert(rbt.IsClean() == (len(touched) == 0), "a transaction is clean if it touched nothing")
	vsym.Assert(wrote || len(dirty) == 0, "reading leaves nothing dirty")
	for k := range spy.found {
		vsym.Assert(touched[k], "every record read below is reported as touched")
	}
	for k := range touched {
		vsym.Assert(spy.found[k] || dirty[k], "only records that were read or written are reported")
	}
	for k := range dirty {
		vsym.Assert(spy.update[k] || spy.deletion[k], "every dirty cell was prepared below")
	}
	asked := 0
	rbt.ScanAllShortKeys(func(key [KeySize]byte, d bool) bool {
		asked++
		return true
	})
	vsym.Assert(asked == 1 || len(touched) == 0, "a scan stops when told to")
	rbt.CloseAndWriteBack(true)
	for k := range spy.set {
		vsym.Assert(dirty[k], "only dirty cells are written back")
		vsym.Assert(spy.update[k], "a cell that is set was prepared for an update")
	}
	for k := range spy.gone {
		vsym.Assert(dirty[k], "only dirty cells are written back")
		vsym.Assert(spy.deletion[k], "a cell that is deleted was prepared for deletion")
	}
	vsym.Assert(len(spy.set)+len(spy.gone) == len(dirty), "every dirty cell is written back")

	again := NewReadOnlyRabbitStore(trunk)
	for i := range keys {
		vsym.Assert(again.Has(keys[i]) == has[i], "the next transaction has the keys")
	}
	vsym.Assert(vsym.Panics(func() { again.Close(); again.WriteBack() }), "a read-only transaction cannot be written back")
	vsym.Reach("end")
}
