package moeingads

import "github.com/smartbch/moeingads/zzv/vsym"

// 270 keys of one shard are created; one block deletes a run of 64, 65, 66, 130, 256 or
// 257 (thorough also 63, 129, 131, 195, 255, 269) neighbours, starting at the first or third key, either without a gap or with the one in
// the middle overwritten with a symbolic value or prepared only; everything is compared; the store
// is reopened and compared again, and a block with one set follows.
// verif: prop=C03,C25 real=yes budget=200 tbudget=600
func VH_C03_ManyDeletes() {
	m := vhOpen("./db", false)
	pool := make([][]byte, 270)
	for i := range pool {
		pool[i] = []byte{0x40, byte(i / 256), byte(i), 1, 2, 3, 4, 40}
	}
	d := vhNewDB(m, pool)
	for i := range pool {
		d.set(i, []byte{byte(i), 1})
	}
	d.block()
	d.sync()
	ns := []int{65, 257, 64, 66, 130, 256}
	if vsym.Thorough() {
		ns = append(ns, 63, 129, 131, 195, 255, 269)
	}
	n := ns[vsym.Choose("n", len(ns))]
	first := 2 * vsym.Choose("first", 2)
	gap := vsym.Choose("gap", 3)
	v := vsym.Bytes("v", 1)
	for i := first; i < first+n && i < len(pool); i++ {
		if gap > 0 && i == first+n/2 {
			if gap == 1 {
				d.set(i, v)
			} else {
				d.prep(i, vhPrepU)
			}
			continue
		}
		d.del(i)
	}
	before, bgrd, max := append([]vhVer{}, d.cur...), d.grd, d.maxSN()
	d.block()
	d.reads("deleted")
	d.chain("deleted")
	d.leaves(before, bgrd, max, "deleted")
	d.reopen(false, "reopened")
	d.reads("reopened")
	d.chain("reopened")
	d.leaves(before, bgrd, max, "reopened")
	d.sync()
	d.set(first, v)
	d.checked("block after reopening")
	vsym.Reach("end")
}
