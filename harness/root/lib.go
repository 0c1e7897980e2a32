package moeingads

import (
	"github.com/smartbch/moeingads/types"
	"github.com/smartbch/moeingads/zzv/vsym"
)

var (
	vhStart = []byte{0, 0, 0, 0, 0, 0, 0, 0}
	vhEnd   = []byte{255, 255, 255, 255, 255, 255, 255, 255}
)

func vhOpen(dir string, history bool) *MoeingADS {
	m, err := NewMoeingADS(dir, history, [][]byte{vhStart, vhEnd})
	if err != nil {
		panic(err)
	}
	return m
}

// vhVer is what the store holds for one key of the pool.
type vhVer struct {
	live bool
	val  []byte
	h    int64
	lh   int64
	sn   int64
	next int
}

// vhDB is the store under test together with a plain map from keys to values.
// The pool is ascending; index -1 is the start guard, len(pool) the end guard.
type vhDB struct {
	m    *MoeingADS
	pool [][]byte
	cur  []vhVer
	pend []vhOp
	h    int64
	grd  vhVer // the start guard
}

const (
	vhSet = iota
	vhDel
	vhPrepU
	vhPrepD
)

type vhOp struct {
	kind, key int
	val       []byte
}

func vhNewDB(m *MoeingADS, pool [][]byte) *vhDB {
	d := &vhDB{m: m, pool: pool, cur: make([]vhVer, len(pool))}
	d.grd = vhVer{live: true, h: -1, lh: -1, next: len(pool)}
	d.sync()
	return d
}

func (d *vhDB) key(i int) []byte {
	if i < 0 {
		return vhStart
	}
	if i >= len(d.pool) {
		return vhEnd
	}
	return d.pool[i]
}

func (d *vhDB) set(k int, v []byte) { d.pend = append(d.pend, vhOp{vhSet, k, v}) }
func (d *vhDB) del(k int)           { d.pend = append(d.pend, vhOp{vhDel, k, nil}) }
func (d *vhDB) prep(k, kind int)    { d.pend = append(d.pend, vhOp{kind, k, nil}) }

// block runs the pending operations as one block.
func (d *vhDB) block() {
	d.h += 3
	for _, o := range d.pend {
		if o.kind == vhSet || o.kind == vhPrepU {
			d.m.PrepareForUpdate(vsym.CloneBytes(d.pool[o.key]))
		} else {
			ok := d.m.PrepareForDeletion(vsym.CloneBytes(d.pool[o.key]))
			vsym.Assert(ok == d.cur[o.key].live, "preparing a deletion reports whether the key exists")
		}
	}
	d.m.BeginWrite(d.h)
	for _, o := range d.pend {
		switch o.kind {
		case vhSet:
			d.m.Set(vsym.CloneBytes(d.pool[o.key]), vsym.CloneBytes(o.val))
			d.cur[o.key].live, d.cur[o.key].val = true, o.val
		case vhDel:
			d.m.Delete(vsym.CloneBytes(d.pool[o.key]))
			d.cur[o.key].live = false
		}
	}
	d.pend = nil
	d.m.EndWrite()
}

// reads compares every key of the pool with the reference.
func (d *vhDB) reads(what string) {
	n := 0
	for i, k := range d.pool {
		e := d.m.GetEntry(k)
		vsym.Assert((e != nil) == d.cur[i].live, what+": a key is present exactly if its last operation set it")
		if e == nil || !d.cur[i].live {
			continue
		}
		n++
		vsym.Assert(vsym.BytesEq(e.Key, k), what+": the entry is the key's own")
		vsym.Assert(vsym.BytesEq(e.Value, d.cur[i].val), what+": the value last set is read")
	}
	vsym.Assert(d.m.ActiveCount() == n+2, what+": the number of live keys")
	i := len(d.pool)
	cnt := 0
	d.m.ScanAll(func(key, value []byte) {
		cnt++
		for i--; i >= 0 && !d.cur[i].live; i-- {
		}
		if i >= 0 {
			vsym.Assert(vsym.BytesEq(key, d.pool[i]) && vsym.BytesEq(value, d.cur[i].val), what+": a full scan yields the live pairs")
		}
	})
	vsym.Assert(cnt == n, what+": a full scan yields every live pair once")
}

// next is the index of the first live key after i.
func (d *vhDB) next(i int) int {
	for i++; i < len(d.pool); i++ {
		if d.cur[i].live {
			return i
		}
	}
	return i
}

// chain compares the next keys.
func (d *vhDB) chain(what string) {
	for i := -1; i < len(d.pool); i = d.next(i) {
		e := d.m.GetEntry(d.key(i))
		vsym.Assert(e != nil, what+": a member of the chain is readable")
		if e == nil {
			return
		}
		vsym.Assert(vsym.BytesEq(e.NextKey, d.key(d.next(i))), what+": the next key is the smallest live key above")
	}
	e := d.m.GetEntry(vhEnd)
	vsym.Assert(e != nil && vsym.BytesEq(e.NextKey, vhEnd), what+": the chain ends at the end guard")
	d.m.CheckConsistency()
}

// sync notes heights and serial numbers.
func (d *vhDB) sync() {
	for i := -1; i < len(d.pool); i++ {
		v := &d.grd
		if i >= 0 {
			v = &d.cur[i]
		}
		if !v.live {
			v.sn = -1
			continue
		}
		e := d.m.GetEntry(d.key(i))
		if e == nil {
			continue
		}
		v.h, v.lh, v.sn = e.Height, e.LastHeight, e.SerialNum
	}
}

// leaves checks activity bits, serial numbers and heights; before is the
// state before the last block, lo the serial numbers in use before the first block.
func (d *vhDB) leaves(before []vhVer, bgrd vhVer, maxBefore [types.ShardCount]int64, what string) {
	active := map[[2]int64]bool{}
	n := 0
	note := func(i int, v *vhVer, old vhVer) {
		k := d.key(i)
		e := d.m.GetEntry(k)
		if e == nil {
			return
		}
		s := types.GetShardID(k)
		id := [2]int64{int64(s), e.SerialNum}
		vsym.Assert(!active[id], what+": no two keys share a leaf")
		active[id] = true
		n++
		vsym.Assert(d.m.datTree[s].GetActiveBit(e.SerialNum), what+": the leaf of a live key is active")
		if e.SerialNum >= maxBefore[s] {
			vsym.Assert(e.Height == d.h, what+": an entry written by a block records its height")
			if old.live {
				vsym.Assert(e.LastHeight == old.h, what+": an entry records the height of the version it replaces")
			}
		} else {
			vsym.Assert(old.live && e.SerialNum == old.sn && e.Height == old.h && e.LastHeight == old.lh, what+": an entry a block does not touch stays")
		}
	}
	note(-1, &d.grd, bgrd)
	for i := range d.pool {
		if d.cur[i].live {
			note(i, &d.cur[i], before[i])
		}
	}
	e := d.m.GetEntry(vhEnd)
	active[[2]int64{types.ShardCount - 1, e.SerialNum}] = true
	n++
	cnt := 0
	for s := 0; s < types.ShardCount; s++ {
		vsym.Assert(d.m.meta.GetMaxSerialNum(s) >= maxBefore[s], what+": serial numbers only grow")
		for sn := int64(2048); sn < d.m.meta.GetMaxSerialNum(s); sn++ {
			a := d.m.datTree[s].GetActiveBit(sn)
			vsym.Assert(a == active[[2]int64{int64(s), sn}], what+": exactly the leaves of live keys are active")
			if a {
				cnt++
			}
		}
	}
	vsym.Assert(cnt == n, what+": one active leaf per live key")
}

func (d *vhDB) maxSN() (r [types.ShardCount]int64) {
	for s := range r {
		r[s] = d.m.meta.GetMaxSerialNum(s)
	}
	return
}

// checked runs the pending operations as a block and compares everything.
func (d *vhDB) checked(what string) {
	before := append([]vhVer{}, d.cur...)
	bgrd := d.grd
	max := d.maxSN()
	d.block()
	d.reads(what)
	d.chain(what)
	d.leaves(before, bgrd, max, what)
	d.sync()
}

// vhPool is a pool of n ascending keys. The two upper bytes and the last byte
// (the shard) are chosen, the five bytes between are arbitrary.
func vhPool(n int, layout int) [][]byte {
	tops := [][5]uint16{{0x4000, 0x4000, 0x4000, 0x4000, 0x4000}, {0x4000, 0x4000, 0x4300, 0x43ff, 0x43ff}, {0x40ff, 0x4400, 0x4400, 0xbfff, 0xbfff}, {0, 0, 0xffff, 0xffff, 0xffff}}[layout&3]
	lows := [][5]byte{{1, 1, 1, 1, 1}, {200, 3, 100, 31, 100}, {0, 32, 255, 31, 32}, {255, 0, 255, 254, 0}}[layout&3]
	var pool [][]byte
	for i := 0; i < n; i++ {
		k := make([]byte, 0, 8)
		k = append(k, byte(tops[i]>>8), byte(tops[i]))
		k = append(k, vsym.Bytes("key", 5)...)
		k = append(k, lows[i])
		if i > 0 {
			vsym.Assume(vsym.BytesLess(pool[i-1], k))
		} else {
			vsym.Assume(vsym.BytesLess(vhStart, k))
		}
		pool = append(pool, k)
	}
	vsym.Assume(vsym.BytesLess(pool[n-1], vhEnd))
	return pool
}

// someOp adds one operation of any kind on any key.
func (d *vhDB) someOp(kinds int) {
	k := vsym.Choose("key", len(d.pool))
	switch vsym.Choose("op", kinds) {
	case vhSet:
		d.set(k, vsym.Bytes("v", 1))
	case vhDel:
		d.del(k)
	case vhPrepU:
		d.prep(k, vhPrepU)
	case vhPrepD:
		d.prep(k, vhPrepD)
	}
}

// reopen closes the store and opens it again.
func (d *vhDB) reopen(history bool, what string) {
	root := d.m.GetRootHash()
	h := d.m.GetCurrHeight()
	d.m.Close()
	d.m = vhOpen("./db", history)
	vsym.Assert(vsym.BytesEq(d.m.GetRootHash(), root), what+": the root hash is the same")
	vsym.Assert(d.m.GetCurrHeight() == h, what+": the height is the same")
}
