package moeingads

import (
	"os"

	"github.com/smartbch/moeingads/zzv/vsym"
	"github.com/tecbot/gorocksdb"
)

// crashing runs f, which ends with a block, with a crash at any mutation, and
// opens the store again. Before f the state must be noted.
func (d *vhDB) crashing(history bool, policies int, f func()) {
	before, bh, hh, broot := append([]vhVer{}, d.cur...), d.m.GetCurrHeight(), d.h, d.m.GetRootHash()
	os.LoseUnsynced = vsym.Bool("power failure")
	os.CutWrite = func(n int) int {
		switch vsym.Choose("cut", 3) {
		case 0:
			return 0
		case 1:
			return n / 2
		}
		return n - 1
	}
	os.CrashWhen(func() bool { return vsym.Bool("crash") })
	vsym.Policy(vsym.Choose("policy", policies))
	f()
	vsym.Policy(0)
	aroot := d.m.GetRootHash()
	acked := !os.Dead()
	os.Revive()
	os.CutWrite, os.LoseUnsynced = nil, false
	d.m = vhOpen("./db", history)
	root := d.m.GetRootHash()
	if d.m.GetCurrHeight() == bh {
		vsym.Assert(!acked, "a block whose end was acknowledged is there after the crash")
		d.cur, d.h = before, hh
		vsym.Assert(vsym.BytesEq(root, broot), "the root is that before the block")
	} else {
		vsym.Assert(d.m.GetCurrHeight() == d.h, "the height is that before or after the block")
		vsym.Assert(vsym.BytesEq(root, aroot), "the root is that after the block")
	}
	d.reads("after the crash")
	d.chain("after the crash")
	d.proofs("after the crash")
	d.sync()
}

// Two keys with five symbolic bytes each, in the last shard and the first (thorough: also in one, or in two others); a block may have created both; the shard is optionally filled so that the next block
// begins a new twig (with its first, second or third entry); a block that sets or deletes the second key, or creates the first (thorough: of one or two operations of any kind on any key) is run and the process dies at
// any file-system or database mutation (all but a part of the interrupted write is lost), or the machine does (what was not
// synced is lost too); the store is opened: its contents, chain, root and height are those before or after the block, after it if the block
// had ended; a further block (quick: that sets one of the keys) is run and compared; the store is reopened once more.
// The goroutines run each as long as it can, or always the oldest runnable one (the youngest while main waits for a group), or (quick: if the block before created no key) always main and then the youngest.
// File segments are 64 KiB.
// verif: prop=C23 real=no budget=400 tbudget=850 const=DefaultHPFileSize:65536,HPFileBufferSize:8192
func VH_C23_Block() {
	gorocksdb.ReleaseAll()
	history := false
	layout := 3
	if vsym.Thorough() {
		history = vsym.Bool("history")
		layout = []int{3, 0, 1}[vsym.Choose("layout", 3)]
	}
	d := vhNewDB(vhOpen("./db", history), vhPool(2, layout))
	fill := vsym.Choose("fill", 3)
	exists := fill > 0 || vsym.Bool("exists")
	if vsym.Thorough() && fill > 0 {
		exists = vsym.Bool("exists")
	}
	if exists {
		d.set(0, []byte{1})
		d.set(1, []byte{2})
		d.block()
	}
	d.sync()
	if fill > 0 {
		d.fillTo(0, 4096-int64(fill))
		d.sync()
	}
	if !vsym.Thorough() {
		switch {
		case exists && vsym.Bool("del"):
			d.del(1)
		case exists:
			d.set(1, []byte{9})
		default:
			d.set(0, []byte{9})
		}
	} else {
		d.someOp(2)
		if vsym.Bool("two") {
			d.someOp(2)
		}
	}
	policies := 3
	if !vsym.Thorough() && exists {
		policies = 2
	}
	d.crashing(history, policies, func() { d.block() })
	if vsym.Thorough() {
		d.someOp(2)
	} else {
		d.set(1, []byte{7})
	}
	d.block()
	d.reads("next block")
	d.chain("next block")
	d.reopen(history, "reopened again")
	d.reads("reopened again")
	d.chain("reopened again")
	vsym.Reach("end")
}

// Two keys of shard 0 with five symbolic bytes each: a block creates both, dead entries fill the next ten twigs and the first twig
// is reaped; then a block sets or deletes one of the keys (thorough: either, or does nothing) and reaps the twig with
// their entries, and the process dies at any file-system or database mutation (a power failure too: unsynced data is lost);
// the store is opened: contents, chain, root, proofs and height are those before or after the block, after it if the block had
// ended; a further block that sets a key is run and compared. File segments are 64 KiB.
// verif: prop=C23 real=no budget=300 tbudget=850 const=DefaultHPFileSize:65536,HPFileBufferSize:8192
func VH_C23_Compact() {
	gorocksdb.ReleaseAll()
	history := vsym.Thorough() && vsym.Bool("history")
	d := vhNewDB(vhOpen("./db", history), vhPool(2, 0))
	d.set(0, []byte{1})
	d.set(1, []byte{2})
	d.block()
	d.fill(0, 11)
	d.compactBlock(0)
	d.sync()
	switch {
	case vsym.Thorough():
		if vsym.Bool("op") {
			d.someOp(2)
		}
	case vsym.Bool("del"):
		d.del(1)
	default:
		d.set(1, []byte{9})
	}
	d.crashing(history, 2, func() {
		tree := d.m.idxTree
		d.m.idxTree = &vhBusy{tree}
		d.block()
		d.m.idxTree = tree
	})
	d.set(1, []byte{7})
	d.block()
	d.reads("next block")
	d.chain("next block")
	vsym.Reach("end")
}

// A store with history and two keys with five symbolic bytes each, in the last shard and the first: a block creates both; a block sets or deletes the second and
// the process, or the machine, dies at any file-system or database mutation; the store is opened, a further block two heights on sets the
// first key (thorough: any operation), and both keys are read at an arbitrary height: what the blocks that survived wrote, and nothing of the
// one that did not. File segments are 64 KiB.
// verif: prop=C23 real=no budget=300 tbudget=850 const=DefaultHPFileSize:65536,HPFileBufferSize:8192
func VH_C23_History() {
	gorocksdb.ReleaseAll()
	d := vhNewDB(vhOpen("./db", true), vhPool(2, 3))
	d.set(0, []byte{1})
	d.set(1, []byte{2})
	d.block()
	d.sync()
	vers := d.versions(nil)
	if vsym.Bool("del") {
		d.del(1)
	} else {
		d.set(1, []byte{9})
	}
	lost := d.h
	d.crashing(true, 2, func() { d.block() })
	if d.h != lost {
		vers = d.versions(vers)
	} else {
		d.h += 3 // the height of the block that was lost is passed over
	}
	if vsym.Thorough() {
		d.someOp(2)
	} else {
		d.set(0, []byte{7})
	}
	d.block()
	vers = d.versions(vers)
	d.at(vers, -1, vsym.Int("query height", 0, 30), "after the crash")
	vsym.Reach("end")
}
