package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one slot. Integers, booleans and floats are in n when concrete
// (zero-extended to their width) and a *Term in p when symbolic; pointers are
// (object in p, slot offset in n); everything else is a boxed p. The zero
// Value is the zero value of every type.
type Value struct {
	n uint64
	p any
}

type Agg struct{ v []Value }   // struct or array value in a register
type Tuple struct{ v []Value } // multiple results
type Slice struct {
	obj           *Obj
	off, len, cap int
	es            int // slots per element
}
type Str struct {
	s   string
	sym []Value // nil when concrete
}
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn    *ssa.Function
	binds []Value
	bi    *ssa.Builtin
}
type SymPtr struct {
	obj  *Obj
	base int
	idx  *Term // 64-bit
	step int
	cnt  int
	add  int // further constant slot offset inside the element
}

const pageBits = 6
const pageSize = 1 << pageBits

type Page struct {
	b     []byte
	v     []Value
	stamp uint32
}

type Obj struct {
	pages  []*Page
	n      int
	id     uint32
	es     int
	birth  uint32 // stamp at creation: no choice can go back to a state that has it while the stamp lasts
	name   string
	uninit bool // global of a package whose initializer was not run
}

type MapEntry struct {
	k, v Value
	dead bool
}
type MapObj struct {
	ents  []*MapEntry
	idx   map[any]int // concrete keys
	nsym  int         // live entries with symbolic keys
	live  int
	id    uint32
	order []int
}
type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
	sendq  []*sendReq
	recvW  int
	id     uint32
}
type sendReq struct {
	g    *G
	v    Value
	done bool
}
type RangeIter struct {
	m    *MapObj
	ents []*MapEntry
	pos  int
	str  *Str
}

func (e *Engine) newObj(n int, es int) *Obj {
	e.objID++
	return &Obj{pages: make([]*Page, (n+pageSize-1)>>pageBits), n: n, id: e.objID, es: es, birth: e.stamp}
}

func (o *Obj) get(off int) Value {
	if uint(off) >= uint(o.n) {
		panic(fmt.Sprintf("engine: load outside object %s (%d of %d)", o.name, off, o.n))
	}
	pg := o.pages[off>>pageBits]
	if pg == nil {
		return Value{}
	}
	if pg.v != nil {
		return pg.v[off&(pageSize-1)]
	}
	return Value{n: uint64(pg.b[off&(pageSize-1)])}
}

func (e *Engine) wpage(o *Obj, pi int) *Page {
	pg := o.pages[pi]
	if pg != nil && (pg.stamp == e.stamp || len(e.choices) == 0 && !e.forceTrail) {
		return pg
	}
	var np *Page
	if pg == nil {
		np = &Page{b: make([]byte, pageSize), stamp: e.stamp}
	} else if pg.v != nil {
		np = &Page{v: append([]Value(nil), pg.v...), stamp: e.stamp}
	} else {
		np = &Page{b: append([]byte(nil), pg.b...), stamp: e.stamp}
	}
	if (len(e.choices) > 0 || e.forceTrail) && o.birth != e.stamp {
		e.trail = append(e.trail, trailEnt{obj: o, idx: pi, old: pg})
	}
	o.pages[pi] = np
	return np
}

func (e *Engine) set(o *Obj, off int, v Value) {
	if uint(off) >= uint(o.n) {
		panic(fmt.Sprintf("engine: store outside object %s (%d of %d)", o.name, off, o.n))
	}
	pi := off >> pageBits
	small := v.p == nil && v.n < 256
	if o.pages[pi] == nil && small && v.n == 0 {
		return
	}
	pg := e.wpage(o, pi)
	i := off & (pageSize - 1)
	if pg.v == nil {
		if small {
			pg.b[i] = byte(v.n)
			return
		}
		pg.v = make([]Value, pageSize)
		for j, c := range pg.b {
			pg.v[j].n = uint64(c)
		}
		pg.b = nil
	}
	pg.v[i] = v
}

func (e *Engine) getN(o *Obj, off, n int) []Value {
	r := make([]Value, n)
	if n > 0 && (off < 0 || off+n > o.n) {
		panic(fmt.Sprintf("engine: load outside object %s", o.name))
	}
	for i := 0; i < n; {
		pg := o.pages[(off+i)>>pageBits]
		j := (off + i) & (pageSize - 1)
		k := pageSize - j
		if k > n-i {
			k = n - i
		}
		if pg != nil {
			if pg.v != nil {
				copy(r[i:i+k], pg.v[j:j+k])
			} else {
				for x := 0; x < k; x++ {
					r[i+x].n = uint64(pg.b[j+x])
				}
			}
		}
		i += k
	}
	return r
}

func (e *Engine) setN(o *Obj, off int, vs []Value) {
	for i, v := range vs {
		e.set(o, off+i, v)
	}
}

func (e *Engine) zeroN(o *Obj, off, n int) {
	for i := 0; i < n; {
		pi := (off + i) >> pageBits
		j := (off + i) & (pageSize - 1)
		k := pageSize - j
		if k > n-i {
			k = n - i
		}
		if o.pages[pi] != nil {
			for x := 0; x < k; x++ {
				e.set(o, off+i+x, Value{})
			}
		}
		i += k
	}
}

// copySlots copies n slots with memmove semantics.
func (e *Engine) copySlots(d *Obj, doff int, s *Obj, soff, n int) {
	if n <= 0 {
		return
	}
	if d == s && doff > soff {
		vs := e.getN(s, soff, n)
		e.setN(d, doff, vs)
		return
	}
	for i := 0; i < n; {
		spi, sj := (soff+i)>>pageBits, (soff+i)&(pageSize-1)
		dpi, dj := (doff+i)>>pageBits, (doff+i)&(pageSize-1)
		k := pageSize - sj
		if pageSize-dj < k {
			k = pageSize - dj
		}
		if k > n-i {
			k = n - i
		}
		if soff+i+k > s.n || doff+i+k > d.n {
			panic("engine: copy outside object")
		}
		sp := s.pages[spi]
		if sp == nil {
			e.zeroN(d, doff+i, k)
		} else if sp.v == nil {
			if dp := d.pages[dpi]; dp == nil || dp.v == nil {
				wp := e.wpage(d, dpi)
				copy(wp.b[dj:dj+k], sp.b[sj:sj+k])
			} else {
				for x := 0; x < k; x++ {
					e.set(d, doff+i+x, Value{n: uint64(sp.b[sj+x])})
				}
			}
		} else {
			for x := 0; x < k; x++ {
				e.set(d, doff+i+x, sp.v[sj+x])
			}
		}
		i += k
	}
}

type trailEnt struct {
	obj  *Obj
	idx  int
	old  *Page
	undo func()
}

func (e *Engine) addUndo(f func()) {
	if len(e.choices) > 0 || e.forceTrail {
		e.trail = append(e.trail, trailEnt{undo: f})
	}
}

func (e *Engine) undoTo(n int) {
	for i := len(e.trail) - 1; i >= n; i-- {
		t := &e.trail[i]
		if t.undo != nil {
			t.undo()
		} else {
			t.obj.pages[t.idx] = t.old
		}
		*t = trailEnt{}
	}
	e.trail = e.trail[:n]
}

// ---- helpers on values

func boolV(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func isSym(v Value) bool { _, ok := v.p.(*Term); return ok }

func (e *Engine) term(v Value, w uint8) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return e.tt.Const(v.n, w)
}

func fromTerm(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.c}
	}
	return Value{p: t}
}

func (e *Engine) boolTerm(v Value) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return e.tt.Bool(v.n != 0)
}

func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: &Str{s: s}}
}

func getStr(v Value) *Str {
	if v.p == nil {
		return &Str{}
	}
	return v.p.(*Str)
}

func (s *Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

func (s *Str) at(i int) Value {
	if s.sym != nil {
		return s.sym[i]
	}
	return Value{n: uint64(s.s[i])}
}

func (s *Str) bytes() []Value {
	if s.sym != nil {
		return s.sym
	}
	r := make([]Value, len(s.s))
	for i := range r {
		r[i].n = uint64(s.s[i])
	}
	return r
}

func bytesToStr(bs []Value) Value {
	if len(bs) == 0 {
		return Value{}
	}
	buf := make([]byte, len(bs))
	for i, b := range bs {
		if b.p != nil {
			return Value{p: &Str{sym: append([]Value(nil), bs...)}}
		}
		buf[i] = byte(b.n)
	}
	return Value{p: &Str{s: string(buf)}}
}

func getSlice(v Value) *Slice {
	if v.p == nil {
		return &Slice{}
	}
	return v.p.(*Slice)
}

// bytesOf returns the bytes of a []byte or string value.
func (e *Engine) bytesOf(v Value) []Value {
	switch x := v.p.(type) {
	case nil:
		return nil
	case *Str:
		return x.bytes()
	case *Slice:
		return e.getN(x.obj, x.off, x.len)
	}
	panic(unsupported{fmt.Sprintf("bytesOf %T", v.p)})
}

func concreteBytes(bs []Value) ([]byte, bool) {
	r := make([]byte, len(bs))
	for i, b := range bs {
		if b.p != nil {
			return nil, false
		}
		r[i] = byte(b.n)
	}
	return r, true
}

func (e *Engine) mkBytes(bs []Value) Value {
	o := e.newObj(len(bs), 1)
	e.setN(o, 0, bs)
	return Value{p: &Slice{obj: o, len: len(bs), cap: len(bs), es: 1}}
}

func (e *Engine) mkConcBytes(bs []byte) Value {
	o := e.newObj(len(bs), 1)
	for i := 0; i < len(bs); i += pageSize {
		j := i + pageSize
		if j > len(bs) {
			j = len(bs)
		}
		pg := &Page{b: make([]byte, pageSize), stamp: e.stamp}
		copy(pg.b, bs[i:j])
		o.pages[i>>pageBits] = pg
	}
	return Value{p: &Slice{obj: o, len: len(bs), cap: len(bs), es: 1}}
}

func byteTerm(tt *TermTab, v Value) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return tt.Const(v.n, 8)
}

// bytesEq is equality of two byte strings; runs of 32 bytes that are a whole
// ideal-hash output are compared by their preimages.
func (tt *TermTab) bytesEq(a, b []Value) *Term {
	if len(a) != len(b) {
		return tt.F
	}
	res := tt.T
	for i := 0; i < len(a); i++ {
		x, y := a[i], b[i]
		if x.p == nil && y.p == nil {
			if x.n != y.n {
				return tt.F
			}
			continue
		}
		tx, _ := x.p.(*Term)
		ty, _ := y.p.(*Term)
		if tx == ty {
			continue
		}
		if n, t := tt.hashRunEq(a[i:], b[i:]); n > 0 {
			res = tt.And(res, t)
			if res == tt.F {
				return res
			}
			i += n - 1
			continue
		}
		res = tt.And(res, tt.Eq(byteTerm(tt, x), byteTerm(tt, y)))
		if res == tt.F {
			return res
		}
	}
	return res
}

func wholeHash(a []Value) *HashApp {
	t, ok := a[0].p.(*Term)
	if !ok || t.hash == nil || t.hashIdx != 0 || len(a) < len(t.hash.bytes) {
		return nil
	}
	for i, b := range t.hash.bytes {
		if x, ok := a[i].p.(*Term); !ok || x != b {
			return nil
		}
	}
	return t.hash
}

// concHashes: concretely computed ideal hashes and their inputs.
type concHash struct {
	fn string
	in []byte
}

func (tt *TermTab) hashRunEq(a, b []Value) (int, *Term) {
	ha := wholeHash(a)
	hb := wholeHash(b)
	if ha == nil && hb == nil {
		return 0, nil
	}
	if ha != nil && hb != nil {
		if ha.fn != hb.fn || idealHash[ha.fn] == 0 {
			return 0, nil
		}
		return len(ha.bytes), tt.bytesEq(ha.in, hb.in)
	}
	if ha == nil {
		ha, a, b = hb, b, a
	}
	if idealHash[ha.fn] == 0 {
		return 0, nil
	}
	n := len(ha.bytes)
	cb, ok := concreteBytes(b[:n])
	if !ok {
		return 0, nil
	}
	in, known := concHashLookup(ha.fn, cb)
	if !known {
		return n, tt.F // no preimage of this digest was ever hashed
	}
	vin := make([]Value, len(in))
	for i := range in {
		vin[i].n = uint64(in[i])
	}
	return n, tt.bytesEq(ha.in, vin)
}

// bytesLess returns a < b (lexicographic).
func (tt *TermTab) bytesLess(a, b []Value) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	// group into words of up to 8 bytes
	res := tt.Bool(len(a) < len(b))
	type chunk struct{ x, y *Term }
	var cs []chunk
	for i := 0; i < n; i += 8 {
		j := i + 8
		if j > n {
			j = n
		}
		cs = append(cs, chunk{tt.beWord(a[i:j]), tt.beWord(b[i:j])})
	}
	for k := len(cs) - 1; k >= 0; k-- {
		lt := tt.Ult(cs[k].x, cs[k].y)
		eq := tt.Eq(cs[k].x, cs[k].y)
		res = tt.Or(lt, tt.And(eq, res))
	}
	return res
}

func (tt *TermTab) beWord(bs []Value) *Term {
	var t *Term
	for _, b := range bs {
		x := byteTerm(tt, b)
		if t == nil {
			t = x
		} else {
			t = tt.Concat(t, x)
		}
	}
	return t
}

func underlying(t types.Type) types.Type { return t.Underlying() }
