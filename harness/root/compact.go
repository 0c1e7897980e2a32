package moeingads

import "github.com/smartbch/moeingads/zzv/vsym"

// vhTouch notes which entries a block of the pending operations rewrites:
// those set and those whose next key changes; it over-approximates.
func (d *vhDB) vhTouch() []bool {
	t := make([]bool, len(d.pool)+1)
	for _, o := range d.pend {
		t[o.key+1] = true
		for i := o.key - 1; i >= -1; i-- {
			t[i+1] = true
			if i < 0 || d.cur[i].live {
				break
			}
		}
	}
	return t
}

// Three keys of one shard with five symbolic bytes each (that of the start guard; thorough: also that of the end guard): a block creates every
// subset, a second block does one operation of any kind on any key, so that the twig that is to be reaped holds live and
// dead leaves; dead entries fill the next ten twigs; then a block compacts an empty twig and another
// one the twig with the entries, together with one operation (thorough: any) on any key; everything is read,
// proved and compared; the store is reopened and compared again (quick: for some).
// The index claims a key count that makes the store compact.
// verif: prop=C22 real=yes budget=300 tbudget=850
func VH_C22_Compact() {
	shard, layout := 0, 0
	history := false
	if vsym.Thorough() && vsym.Bool("end") {
		shard, layout, history = 7, 2, true
	}
	m := vhOpen("./db", history)
	pool := vhPool(3, layout)
	for _, k := range pool {
		k[7] = byte(shard * 32)
	}
	for i := 1; i < len(pool); i++ {
		vsym.Assume(vsym.BytesLess(pool[i-1], pool[i]))
	}
	d := vhNewDB(m, pool)
	for i := range d.pool {
		if vsym.Bool("exists") {
			d.set(i, vsym.Bytes("v", 1))
		}
	}
	d.block()
	d.sync()
	d.someOp(2)
	d.block()
	d.sync()
	d.fill(shard, 11)
	before, bgrd := append([]vhVer{}, d.cur...), d.grd
	d.compactBlock(shard)
	d.reads("after an empty twig was reaped")
	d.compacted(shard, before, bgrd, make([]bool, len(d.pool)+1), "empty twig")
	d.sync()
	op := true
	if !vsym.Thorough() {
		op = vsym.Bool("op")
	}
	if op {
		d.someOp(2)
	}
	touched := d.vhTouch()
	before, bgrd = append([]vhVer{}, d.cur...), d.grd
	d.compactBlock(shard)
	d.reads("compacted")
	d.chain("compacted")
	d.compacted(shard, before, bgrd, touched, "compacted")
	d.proofs("compacted")
	d.sync()
	if vsym.Thorough() || !op {
		d.reopen(history, "reopened")
		d.reads("reopened")
		d.chain("reopened")
	}
	vsym.Reach("end")
}

// 70 keys of one shard, the first five of which were overwritten (together, or each in
// its own block, before or after the others were created) or not, so that their records,
// the oldest or the youngest of the twig, carry lists of deactivated leaves or not;
// ten twigs later a block deletes 0, 62, 63, 64 or 65 of the others, which leaves as many deactivations
// pending, and compacts the twig with all entries; everything is read, proved and compared; the store
// is reopened and compared again, and the youngest twig's log is relocated once more after ten other twigs (thorough).
// verif: prop=C22 real=yes budget=200 tbudget=600
func VH_C22_Pending() {
	m := vhOpen("./db", false)
	pool := make([][]byte, 70)
	for i := range pool {
		pool[i] = []byte{0x40, byte(i), 1, 2, 3, 4, 5, 40}
	}
	d := vhNewDB(m, pool)
	over := vsym.Choose("overwritten", 5)
	first := len(pool)
	if over > 2 {
		first = 5
	}
	for i := 0; i < first; i++ {
		d.set(i, []byte{byte(i)})
	}
	d.block()
	for i := 0; i < 5 && over > 0; i++ {
		d.set(i, vsym.Bytes("v", 1))
		if over == 2 || over == 4 {
			d.block()
		}
	}
	if over > 0 {
		d.block()
	}
	for i := first; i < len(pool); i++ {
		d.set(i, []byte{byte(i)})
	}
	d.block()
	d.sync()
	d.fill(1, 11)
	d.compactBlock(1)
	d.reads("after an empty twig was reaped")
	n := []int{64, 63, 0, 62, 65}[vsym.Choose("n", 5)]
	for i := 0; i < n; i++ {
		d.del(5 + i)
	}
	touched := d.vhTouch()
	before, bgrd := append([]vhVer{}, d.cur...), d.grd
	d.compactBlock(1)
	d.reads("compacted")
	d.chain("compacted")
	d.compacted(1, before, bgrd, touched, "compacted")
	d.proofs("compacted")
	d.sync()
	d.reopen(false, "reopened")
	d.reads("reopened")
	d.chain("reopened")
	if vsym.Thorough() {
		young := d.m.meta.GetYoungestTwigID(1)
		d.fill(1, young+11)
		for d.m.meta.GetOldestActiveTwigID(1) <= young {
			before, bgrd = append([]vhVer{}, d.cur...), d.grd
			d.compactBlock(1)
			d.compacted(1, before, bgrd, make([]bool, len(pool)+1), "compacted again")
			d.sync()
		}
		d.reads("compacted again")
		d.proofs("compacted again")
		d.reopen(false, "reopened again")
		d.reads("reopened again")
	}
	vsym.Reach("end")
}
