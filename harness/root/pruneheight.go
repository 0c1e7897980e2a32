package moeingads

import "github.com/smartbch/moeingads/zzv/vsym"

// A store whose shard 0 has sixteen twigs, the first six of them reaped (the start guard was relocated), which start at heights in four blocks or more; a key (thorough: two) with five symbolic
// bytes is created or not in one block, and one operation of any kind is done in the next; everything before an
// arbitrary height is pruned; contents, chain and proofs are compared; then either the contents at an arbitrary height above that are
// compared, or the store is reopened at once or after one more block and compared again, and one more block runs (thorough: and another
// prune and reopening). File segments are 64 KiB so that pruning removes files.
// verif: prop=C28 real=yes budget=400 tbudget=850 const=DefaultHPFileSize:65536,HPFileBufferSize:8192
func VH_C28_Prune() {
	m := vhOpen("./db", true)
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	d := vhNewDB(m, vhPool(n, 0))
	d.fill(0, 2)
	d.fill(0, 4)
	d.fill(0, 5)
	d.fill(0, 16)
	for i := 0; i < 6; i++ {
		d.compactBlock(0)
	}
	d.sync()
	for i := range d.pool {
		if vsym.Bool("exists") {
			d.set(i, vsym.Bytes("v", 1))
		}
	}
	vers := d.versions(nil)
	d.block()
	vers = d.versions(vers)
	d.someOp(2)
	d.block()
	vers = d.versions(vers)
	d.sync()
	p := vsym.Int("prune", 0, 60)
	m.PruneBeforeHeight(p)
	check := func(what string) {
		d.reads(what)
		d.chain(what)
		d.proofs(what)
	}
	check("pruned")
	switch vsym.Choose("then", 3) {
	case 0:
		d.at(vers, p, vsym.Int("query height", 0, 60), "pruned")
		vsym.Reach("end")
		return
	case 1:
		d.reopen(true, "reopened")
		check("reopened")
	case 2:
		d.someOp(2)
		d.block()
		check("next block")
		d.reopen(true, "reopened later")
		check("reopened later")
	}
	d.set(0, []byte{9})
	d.block()
	check("last block")
	if vsym.Thorough() {
		d.m.PruneBeforeHeight(p + 20)
		check("pruned again")
		d.reopen(true, "reopened again")
		check("reopened again")
	}
	vsym.Reach("end")
}

// Sixteen twigs in shard 0, their first seven reaped. A key with five symbolic bytes is created at height 6 as the last entry of the third twig or
// as one of the two around it, overwritten at height 12 in the fifth twig (or not, or deleted then) and overwritten (thorough: or deleted) in the
// youngest twig before the reaping. Everything before an arbitrary height is pruned, after which every version that was
// written at or above that height, and every version in force at the end, is read at each height at which it was in force; the
// current contents, chain and proofs are compared (thorough: also after reopening).
// verif: prop=C28 real=yes budget=200 tbudget=400 const=DefaultHPFileSize:65536,HPFileBufferSize:8192
func VH_C28_Recent() {
	d := vhNewDB(vhOpen("./db", true), vhPool(1, 0))
	d.fillTo(0, 6141+int64(vsym.Choose("slack", 4)))
	d.sync()
	op := func(v byte) {
		if d.cur[0].live && (v == 2 || vsym.Thorough()) && vsym.Bool("del") {
			d.del(0)
		} else {
			d.set(0, []byte{v})
		}
	}
	var vers []vhAtVer
	d.set(0, []byte{1})
	d.block()
	d.sync()
	vers = d.versions(vers)
	d.fill(0, 4)
	if vsym.Bool("again") {
		op(2)
	}
	d.block()
	d.sync()
	vers = d.versions(vers)
	d.fill(0, 17)
	op(3)
	d.block()
	d.sync()
	vers = d.versions(vers)
	for i := 0; i < 7; i++ {
		d.compactBlock(0)
	}
	d.sync()
	p := vsym.Int("prune", 0, 60)
	d.m.PruneBeforeHeight(p)
	check := func(what string) {
		d.reads(what)
		d.chain(what)
		d.proofs(what)
	}
	if vsym.Thorough() || p > 20 {
		check("pruned")
	}
	if vsym.Thorough() && vsym.Bool("reopen") {
		d.reopen(true, "reopened")
		check("reopened")
	}
	q := vsym.Int("query height", 0, 60)
	var in *vhAtVer
	for i := range vers {
		if vers[i].h <= q {
			in = &vers[i]
		}
	}
	if q <= p || in == nil || (in.cur[0].live && in.cur[0].h < p && in != &vers[2]) {
		vsym.Reach("end")
		return // K1 is about those written before
	}
	d.at(vers, p, q, "pruned")
	vsym.Reach("end")
}
