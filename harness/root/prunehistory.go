package moeingads

import "github.com/smartbch/moeingads/zzv/vsym"

// A key with five symbolic bytes is set at height 3 in the second twig of a shard, which then gets sixteen
// twigs, the first five of which are reaped at heights 15 to 27, which relocates the entry; everything
// before height 10 is pruned; the key is read at an arbitrary height from 11 to 40, at all of which its value was in force.
// The failure listed as K1: at heights before the relocation the index names the place in the twig that was pruned.
// verif: prop=C28 real=yes budget=200 tbudget=400 known=K1 const=DefaultHPFileSize:65536,HPFileBufferSize:8192
func VH_C28_Relocated() {
	m := vhOpen("./db", true)
	d := vhNewDB(m, vhPool(1, 0))
	d.set(0, []byte{7})
	d.block()
	d.fill(0, 2)
	d.fill(0, 4)
	d.fill(0, 16)
	for i := 0; i < 5; i++ {
		d.compactBlock(0)
	}
	m.PruneBeforeHeight(10)
	q := vsym.Int("query height", 11, 40)
	var e *Entry
	bad := vsym.Panics(func() { e = m.GetEntryAtHeight(d.pool[0], uint64(q)) })
	if q >= 15 {
		vsym.Assume(!bad && e != nil) // judged elsewhere
	}
	vsym.Assert(!bad && e != nil, "an entry in force at a height above the prune height stays readable")
	vsym.Reach("end")
}
