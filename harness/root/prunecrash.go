package moeingads

import (
	"os"

	"github.com/smartbch/moeingads/zzv/vsym"
	"github.com/tecbot/gorocksdb"
)

// A store whose shard 0 has sixteen twigs, the first five of them reaped; a key with five symbolic bytes is created;
// everything before a height (so that the first three or four twigs are pruned; thorough: arbitrary) is pruned, and the process dies at any
// file-system or database mutation of that (thorough: also by a power failure that loses what was not synced); the store is opened again, contents, chain, proofs
// and root are compared; then one more block runs, the same pruning is done again, and the store is reopened once more.
// File segments are 64 KiB so that pruning removes files.
// verif: prop=C28 real=no budget=400 tbudget=850 const=DefaultHPFileSize:65536,HPFileBufferSize:8192
func VH_C28_Crash() {
	gorocksdb.ReleaseAll()
	m := vhOpen("./db", true)
	d := vhNewDB(m, vhPool(1, 0))
	d.fill(0, 2)
	d.fill(0, 4)
	d.fill(0, 16)
	for i := 0; i < 5; i++ {
		d.compactBlock(0)
	}
	d.set(0, []byte{5})
	d.block()
	d.sync()
	p := int64(8)
	if vsym.Thorough() {
		p = vsym.Int("prune", 0, 40)
		os.LoseUnsynced = vsym.Bool("power failure")
	} else if vsym.Bool("late") {
		p = 40
	}
	root := m.GetRootHash()
	os.CrashWhen(func() bool { return vsym.Bool("crash") })
	m.PruneBeforeHeight(p)
	os.Revive()
	os.LoseUnsynced = false
	check := func(what string) {
		d.reads(what)
		d.chain(what)
		d.proofs(what)
	}
	d.m = vhOpen("./db", true)
	vsym.Assert(vsym.BytesEq(d.m.GetRootHash(), root), "reopened: the root hash is the same")
	check("reopened after a crash")
	d.set(0, []byte{9})
	d.block()
	check("next block")
	d.m.PruneBeforeHeight(p)
	check("pruned again")
	d.reopen(true, "reopened again")
	check("reopened again")
	vsym.Reach("end")
}
