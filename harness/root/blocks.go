package moeingads

import "github.com/smartbch/moeingads/zzv/vsym"

// Three ascending keys with five symbolic bytes each in four layouts (one index partition and one
// shard; partitions sharing a bucket; several buckets; the guards' own partitions;
// two to four shards): every subset of them exists; then one block of 0..2 (thorough 3)
// operations, each of them a set with a symbolic value, a deletion or only the preparation for either, on any key; then an empty block.
// verif: prop=C01,C02,C03 real=yes budget=400 tbudget=850
func VH_C01_Block() {
	m := vhOpen("./db", false)
	d := vhNewDB(m, vhPool(3, vsym.Choose("layout", 4)))
	for i := range d.pool {
		if vsym.Bool("exists") {
			d.set(i, []byte{byte(i)})
		}
	}
	d.checked("first block")
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	n = vsym.Choose("ops", n+1)
	for i := 0; i < n; i++ {
		d.someOp(4)
	}
	d.checked("block")
	d.checked("empty block")
	vsym.Reach("end")
}

// Four blocks of one operation (thorough: three of one or two), a set or a deletion of any of three keys, in two
// layouts, with everything compared after each.
// verif: prop=C01,C02,C03 real=yes budget=400 tbudget=850
func VH_C01_History() {
	m := vhOpen("./db", false)
	d := vhNewDB(m, vhPool(3, 1+vsym.Choose("layout", 2)))
	n := 4
	if vsym.Thorough() {
		n = 3
	}
	for b := 0; b < n; b++ {
		d.someOp(2)
		if vsym.Thorough() && vsym.Bool("two") {
			d.someOp(2)
		}
		d.checked("block")
	}
	vsym.Reach("end")
}

// Four keys (thorough five) in two layouts, each existing or not, and one block that sets, deletes or
// leaves alone (thorough also: only prepares) each of them, in ascending (thorough: or descending) order.
// verif: prop=C02 real=yes budget=400 tbudget=850
func VH_C01_Wide() {
	m := vhOpen("./db", false)
	n, kinds := 4, 3
	if vsym.Thorough() {
		n, kinds = 5, 4
	}
	d := vhNewDB(m, vhPool(n, 2*vsym.Choose("layout", 2)))
	for i := range d.pool {
		if vsym.Bool("exists") {
			d.set(i, []byte{byte(i)})
		}
	}
	d.checked("first block")
	desc := vsym.Thorough() && vsym.Bool("desc")
	for i := range d.pool {
		k := i
		if desc {
			k = n - 1 - i
		}
		switch vsym.Choose("op", kinds) {
		case 1:
			d.set(k, []byte{7})
		case 2:
			d.del(k)
		case 3:
			d.prep(k, vhPrepU)
		}
	}
	d.checked("block")
	vsym.Reach("end")
}
