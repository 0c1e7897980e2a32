package moeingads

import "github.com/smartbch/moeingads/zzv/vsym"

// Three keys with five symbolic bytes each in one layout with and another without history (thorough: both): a block creates every subset, a
// second one does one operation of any kind on any key (thorough: one or two); the store is closed
// and opened; contents, chain, leaves and root are compared; then one more block of one
// operation (thorough: and a second reopening).
// verif: prop=C25 real=yes budget=400 tbudget=850
func VH_C25_Reopen() {
	history := vsym.Bool("history")
	m := vhOpen("./db", history)
	layout := 1
	if vsym.Thorough() {
		layout += 2 * vsym.Choose("layout", 2)
	} else if history {
		layout = 3
	}
	d := vhNewDB(m, vhPool(3, layout))
	for i := range d.pool {
		if vsym.Bool("exists") {
			d.set(i, []byte{byte(i)})
		}
	}
	d.checked("first block")
	d.someOp(2)
	if vsym.Thorough() && vsym.Bool("two") {
		d.someOp(2)
	}
	before, bgrd, max := append([]vhVer{}, d.cur...), d.grd, d.maxSN()
	d.block()
	d.reopen(history, "reopened")
	d.reads("reopened")
	d.chain("reopened")
	d.leaves(before, bgrd, max, "reopened")
	d.sync()
	d.someOp(2)
	d.checked("block after reopening")
	if vsym.Thorough() {
		d.reopen(history, "reopened again")
		d.reads("reopened again")
		d.chain("reopened again")
	}
	vsym.Reach("end")
}
