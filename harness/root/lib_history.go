package moeingads

import "github.com/smartbch/moeingads/zzv/vsym"

type vhAtVer struct {
	h   int64
	cur []vhVer
}

// versions adds the contents after the block just run.
func (d *vhDB) versions(v []vhAtVer) []vhAtVer {
	return append(v, vhAtVer{d.h, append([]vhVer{}, d.cur...)})
}

// at compares the contents at an arbitrary height above the prune height.
func (d *vhDB) at(vers []vhAtVer, p, q int64, what string) {
	if q <= p {
		return
	}
	var in *vhAtVer
	for i := range vers {
		if vers[i].h <= q {
			in = &vers[i]
		}
	}
	for i, k := range d.pool {
		e := d.m.GetEntryAtHeight(k, uint64(q))
		live := in != nil && in.cur[i].live
		vsym.Assert((e != nil) == live, what+": a key is present at a height exactly if it was live then")
		if e != nil && live {
			vsym.Assert(vsym.BytesEq(e.Key, k) && vsym.BytesEq(e.Value, in.cur[i].val), what+": the value of that height is read")
		}
	}
}
