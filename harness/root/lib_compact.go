package moeingads

import (
	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/types"
	"github.com/smartbch/moeingads/zzv/vsym"
)

// vhBusy is an index that claims so many keys that the store compacts at the
// end of the block, one twig in each shard that has more than MinKeptTwigs.
type vhBusy struct{ types.IndexTree }

func (b *vhBusy) ActiveCount() int { return 1 << 62 }

// fill appends dead entries to a shard until the given twig is the youngest.
func (d *vhDB) fill(shard int, twig int64) {
	d.h += 3
	d.m.BeginWrite(d.h)
	for d.m.meta.GetYoungestTwigID(shard) < twig {
		sn := d.m.meta.GetMaxSerialNum(shard)
		d.m.meta.IncrMaxSerialNum(shard)
		d.m.datTree[shard].AppendEntry(datatree.DummyEntry(sn))
	}
	d.m.EndWrite()
}

// fillTo appends dead entries to a shard until the given serial number is next.
func (d *vhDB) fillTo(shard int, sn int64) {
	d.h += 3
	d.m.BeginWrite(d.h)
	for d.m.meta.GetMaxSerialNum(shard) < sn {
		n := d.m.meta.GetMaxSerialNum(shard)
		d.m.meta.IncrMaxSerialNum(shard)
		d.m.datTree[shard].AppendEntry(datatree.DummyEntry(n))
	}
	d.m.EndWrite()
}

// compactBlock runs the pending operations as a block that compacts.
func (d *vhDB) compactBlock(shard int) {
	old := d.m.meta.GetOldestActiveTwigID(shard)
	tree := d.m.idxTree
	d.m.idxTree = &vhBusy{tree}
	d.block()
	d.m.idxTree = tree
	if d.m.meta.GetOldestActiveTwigID(shard) == old { // it did not come to it
		d.h += 3
		d.m.BeginWrite(d.h)
		d.m.runIdxTreeJobs()
		d.m.compactForShard(shard)
		d.m.flushIdxTreeJobs()
		d.m.EndWrite()
	}
	vsym.Assert(d.m.meta.GetOldestActiveTwigID(shard) == old+1, "compaction reaps the oldest twig")
}

// compacted checks the leaves of one shard after a compaction.
func (d *vhDB) compacted(shard int, before []vhVer, bgrd vhVer, touched []bool, what string) {
	active := map[int64]bool{}
	oldest := d.m.meta.GetOldestActiveTwigID(shard)
	for i := -1; i <= len(d.pool); i++ {
		v, old, tch := &d.grd, bgrd, touched[0]
		if i == len(d.pool) {
			v, tch = &vhVer{live: true}, true
		} else if i >= 0 {
			v, old, tch = &d.cur[i], before[i], touched[i+1]
		}
		k := d.key(i)
		if !v.live || types.GetShardID(k) != shard {
			continue
		}
		e := d.m.GetEntry(k)
		vsym.Assert(e != nil && e.SerialNum>>11 >= oldest, what+": a live key's leaf lies in a twig that is kept")
		if e == nil || e.SerialNum>>11 < oldest {
			continue
		}
		vsym.Assert(!active[e.SerialNum], what+": no two keys share a leaf")
		active[e.SerialNum] = true
		if !tch {
			vsym.Assert(e.Height == old.h && e.LastHeight == old.lh, what+": a relocated entry keeps its heights")
		}
	}
	for sn := oldest << 11; sn < d.m.meta.GetMaxSerialNum(shard); sn++ {
		vsym.Assert(d.m.datTree[shard].GetActiveBit(sn) == active[sn], what+": exactly the leaves of live keys are active")
	}
}

// proofs obtains a proof for every live key.
func (d *vhDB) proofs(what string) {
	for i := -1; i <= len(d.pool); i++ {
		if i >= 0 && i < len(d.pool) && !d.cur[i].live {
			continue
		}
		_, p, err := d.m.GetProof(d.key(i))
		vsym.Assert(err == nil && len(p) > 0, what+": every live key has a proof that verifies")
	}
}
