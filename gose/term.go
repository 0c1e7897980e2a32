package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Bit-vector and Boolean terms, hash-consed per engine. Width 0 is Bool;
// bit-vector widths are 1..64.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OBNot
	OBAnd
	OBOr
	OBXor
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"bvnot", "bvand", "bvor", "bvxor", "bvadd", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem",
	"bvshl", "bvlshr", "bvashr", "concat", "extract", "zext", "sext"}

type Term struct {
	op      Op
	w       uint8
	id      uint32
	c       uint64 // constant value; for extract: hi<<8|lo
	a       [3]*Term
	name    string
	hash    *HashApp // for OVar: byte of a hash application
	hashIdx uint8
	// evaluation memo
	mEpoch uint32
	mVal   uint64
	// solver definition marks
	defined  uint32
	hashFlag int8 // 0 unknown, 1 yes, 2 no
}

// HashApp is the application of an ideal hash function to a byte string.
type HashApp struct {
	fn    string
	in    []Value // bytes
	bytes []*Term // output bytes, opaque 8-bit variables
	id    int
}

type tkey struct {
	op         Op
	w          uint8
	c          uint64
	a0, a1, a2 uint32
}

type TermTab struct {
	tab    map[tkey]*Term
	nextID uint32
	T, F   *Term
	nvars  int
	epoch  uint32
	vars   []*Term
	apps   []*HashApp
}

func NewTermTab() *TermTab {
	t := &TermTab{tab: map[tkey]*Term{}, nextID: 1}
	t.T = t.mk(OConst, 0, 1, nil, nil, nil)
	t.F = t.mk(OConst, 0, 0, nil, nil, nil)
	return t
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (tt *TermTab) mk(op Op, w uint8, c uint64, a0, a1, a2 *Term) *Term {
	k := tkey{op, w, c, tid(a0), tid(a1), tid(a2)}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: c, id: tt.nextID, a: [3]*Term{a0, a1, a2}}
	tt.nextID++
	tt.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (tt *TermTab) Const(v uint64, w uint8) *Term { return tt.mk(OConst, w, v&mask(w), nil, nil, nil) }
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}

func (tt *TermTab) Var(name string, w uint8) *Term {
	t := &Term{op: OVar, w: w, id: tt.nextID, name: name}
	tt.nextID++
	tt.vars = append(tt.vars, t)
	return t
}

func (t *Term) isConst() bool            { return t.op == OConst }
func (tt *TermTab) isTrue(t *Term) bool  { return t == tt.T }
func (tt *TermTab) isFalse(t *Term) bool { return t == tt.F }

func (tt *TermTab) Not(a *Term) *Term {
	if a == tt.T {
		return tt.F
	}
	if a == tt.F {
		return tt.T
	}
	if a.op == ONot {
		return a.a[0]
	}
	switch a.op {
	case OUlt: // !(a<b) = b<=a
		return tt.Ule(a.a[1], a.a[0])
	case OUle:
		return tt.Ult(a.a[1], a.a[0])
	case OSlt:
		return tt.Sle(a.a[1], a.a[0])
	case OSle:
		return tt.Slt(a.a[1], a.a[0])
	}
	return tt.mk(ONot, 0, 0, a, nil, nil)
}

func (tt *TermTab) And(a, b *Term) *Term {
	if a == tt.F || b == tt.F {
		return tt.F
	}
	if a == tt.T {
		return b
	}
	if b == tt.T || a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return tt.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, 0, a, b, nil)
}

func (tt *TermTab) Or(a, b *Term) *Term {
	if a == tt.T || b == tt.T {
		return tt.T
	}
	if a == tt.F {
		return b
	}
	if b == tt.F || a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return tt.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, 0, 0, a, b, nil)
}

func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.c == b.c)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if a == tt.T {
			return b
		}
		if a == tt.F {
			return tt.Not(b)
		}
	}
	if a.isConst() {
		// a const
		switch b.op {
		case OConcat:
			lw := b.a[1].w
			hi := tt.Const(a.c>>lw, b.a[0].w)
			lo := tt.Const(a.c, lw)
			return tt.And(tt.Eq(hi, b.a[0]), tt.Eq(lo, b.a[1]))
		case OZext:
			iw := b.a[0].w
			if a.c > mask(iw) {
				return tt.F
			}
			return tt.Eq(tt.Const(a.c, iw), b.a[0])
		case OSext:
			iw := b.a[0].w
			if uint64(sext(a.c&mask(iw), iw))&mask(b.w) != a.c {
				return tt.F
			}
			return tt.Eq(tt.Const(a.c, iw), b.a[0])
		case OAdd:
			if b.a[1].isConst() {
				return tt.Eq(tt.Const(a.c-b.a[1].c, a.w), b.a[0])
			}
		case OBXor:
			if b.a[1].isConst() {
				return tt.Eq(tt.Const(a.c^b.a[1].c, a.w), b.a[0])
			}
		case OBNot:
			return tt.Eq(tt.Const(^a.c, a.w), b.a[0])
		case OIte:
			t, e := b.a[1], b.a[2]
			if t.isConst() || e.isConst() {
				return tt.Ite(b.a[0], tt.Eq(a, t), tt.Eq(a, e))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
			return tt.Eq(a.a[0], b.a[0])
		}
		if a.op == OSext && b.op == OSext && a.a[0].w == b.a[0].w {
			return tt.Eq(a.a[0], b.a[0])
		}
		if a.op == OConcat && b.op == OConcat && a.a[1].w == b.a[1].w {
			return tt.And(tt.Eq(a.a[0], b.a[0]), tt.Eq(a.a[1], b.a[1]))
		}
		if a.op == OAdd && b.op == OAdd && a.a[1].isConst() && b.a[1].isConst() && a.a[0] == b.a[0] {
			return tt.Bool(a.a[1].c == b.a[1].c)
		}
		if a.op == OAdd && a.a[0] == b && a.a[1].isConst() {
			return tt.F
		}
		if b.op == OAdd && b.a[0] == a && b.a[1].isConst() {
			return tt.F
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tt.mk(OEq, 0, 0, a, b, nil)
}

// umax/umin give cheap unsigned bounds.
func umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OZext:
		return umax(t.a[0])
	case OBAnd:
		x, y := umax(t.a[0]), umax(t.a[1])
		if x < y {
			return x
		}
		return y
	case OConcat:
		return umax(t.a[0])<<t.a[1].w | umax(t.a[1])
	case OURem:
		if t.a[1].isConst() && t.a[1].c > 0 {
			return t.a[1].c - 1
		}
	case OLshr:
		if t.a[1].isConst() && t.a[1].c < 64 {
			return umax(t.a[0]) >> t.a[1].c
		}
	case OUDiv:
		if t.a[1].isConst() && t.a[1].c > 0 {
			return umax(t.a[0]) / t.a[1].c
		}
	case OIte:
		x, y := umax(t.a[1]), umax(t.a[2])
		if x > y {
			return x
		}
		return y
	case OAdd:
		x, y := umax(t.a[0]), umax(t.a[1])
		s, c := bits.Add64(x, y, 0)
		if c == 0 && s <= mask(t.w) {
			return s
		}
	case OMul:
		x, y := umax(t.a[0]), umax(t.a[1])
		h, l := bits.Mul64(x, y)
		if h == 0 && l <= mask(t.w) {
			return l
		}
	case OBOr, OBXor:
		x, y := umax(t.a[0]), umax(t.a[1])
		return mask(uint8(bits.Len64(x | y)))
	}
	return mask(t.w)
}

func umin(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OZext:
		return umin(t.a[0])
	case OConcat:
		return umin(t.a[0])<<t.a[1].w | umin(t.a[1])
	case OAdd:
		x, y := umax(t.a[0]), umax(t.a[1])
		s, c := bits.Add64(x, y, 0)
		if c == 0 && s <= mask(t.w) {
			return umin(t.a[0]) + umin(t.a[1])
		}
	case OIte:
		x, y := umin(t.a[1]), umin(t.a[2])
		if x < y {
			return x
		}
		return y
	}
	return 0
}

func (tt *TermTab) Ult(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.c < b.c)
	}
	if umax(a) < umin(b) {
		return tt.T
	}
	if umin(a) >= umax(b) {
		return tt.F
	}
	if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
		return tt.Ult(a.a[0], b.a[0])
	}
	if a.op == OZext && b.isConst() && b.c <= mask(a.a[0].w) {
		return tt.Ult(a.a[0], tt.Const(b.c, a.a[0].w))
	}
	if b.op == OZext && a.isConst() && a.c <= mask(b.a[0].w) {
		return tt.Ult(tt.Const(a.c, b.a[0].w), b.a[0])
	}
	if b.isConst() && b.c == 1 {
		return tt.Eq(a, tt.Const(0, a.w))
	}
	return tt.mk(OUlt, 0, 0, a, b, nil)
}

func (tt *TermTab) Ule(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.c <= b.c)
	}
	if umax(a) <= umin(b) {
		return tt.T
	}
	if umin(a) > umax(b) {
		return tt.F
	}
	if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
		return tt.Ule(a.a[0], b.a[0])
	}
	if a.op == OZext && b.isConst() && b.c <= mask(a.a[0].w) {
		return tt.Ule(a.a[0], tt.Const(b.c, a.a[0].w))
	}
	if b.op == OZext && a.isConst() && a.c <= mask(b.a[0].w) {
		return tt.Ule(tt.Const(a.c, b.a[0].w), b.a[0])
	}
	if b.isConst() && b.c == 0 {
		return tt.Eq(a, b)
	}
	return tt.mk(OUle, 0, 0, a, b, nil)
}

func nonneg(t *Term) bool { return umax(t) < uint64(1)<<(t.w-1) }

func (tt *TermTab) Slt(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sext(a.c, a.w) < sext(b.c, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tt.Ult(a, b)
	}
	if nonneg(a) && b.isConst() { // b negative
		return tt.F
	}
	if nonneg(b) && a.isConst() {
		return tt.T
	}
	return tt.mk(OSlt, 0, 0, a, b, nil)
}

func (tt *TermTab) Sle(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sext(a.c, a.w) <= sext(b.c, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tt.Ule(a, b)
	}
	if nonneg(a) && b.isConst() {
		return tt.F
	}
	if nonneg(b) && a.isConst() {
		return tt.T
	}
	return tt.mk(OSle, 0, 0, a, b, nil)
}

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c == tt.T || a == b {
		return a
	}
	if c == tt.F {
		return b
	}
	if c.op == ONot {
		return tt.Ite(c.a[0], b, a)
	}
	if a.w == 0 {
		if a == tt.T {
			return tt.Or(c, b)
		}
		if a == tt.F {
			return tt.And(tt.Not(c), b)
		}
		if b == tt.T {
			return tt.Or(tt.Not(c), a)
		}
		if b == tt.F {
			return tt.And(c, a)
		}
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	return tt.mk(OIte, a.w, 0, c, a, b)
}

func (tt *TermTab) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.Const(^a.c, a.w)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return tt.mk(OBNot, a.w, 0, a, nil, nil)
}

func (tt *TermTab) Add(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tt.Const(a.c+b.c, a.w)
		}
		if b.c == 0 {
			return a
		}
		if a.op == OAdd && a.a[1].isConst() {
			return tt.Add(a.a[0], tt.Const(a.a[1].c+b.c, a.w))
		}
		return tt.mk(OAdd, a.w, 0, a, b, nil)
	}
	if a.op == OAdd && a.a[1].isConst() {
		return tt.Add(tt.Add(a.a[0], b), a.a[1])
	}
	if b.op == OAdd && b.a[1].isConst() {
		return tt.Add(tt.Add(a, b.a[0]), b.a[1])
	}
	// a + (-1*a)
	if b.op == OMul && b.a[1].isConst() && b.a[1].c == mask(b.w) {
		if b.a[0] == a {
			return tt.Const(0, a.w)
		}
		if a.op == OAdd {
			if a.a[0] == b.a[0] {
				return a.a[1]
			}
			if a.a[1] == b.a[0] {
				return a.a[0]
			}
		}
	}
	if a.op == OMul && a.a[1].isConst() && a.a[1].c == mask(a.w) && a.a[0] == b {
		return tt.Const(0, a.w)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAdd, a.w, 0, a, b, nil)
}

func (tt *TermTab) Neg(a *Term) *Term { return tt.Mul(a, tt.Const(^uint64(0), a.w)) }
func (tt *TermTab) Sub(a, b *Term) *Term {
	if a == b {
		return tt.Const(0, a.w)
	}
	return tt.Add(a, tt.Neg(b))
}

func (tt *TermTab) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tt.Const(a.c*b.c, a.w)
		}
		if b.c == 0 {
			return b
		}
		if b.c == 1 {
			return a
		}
		if b.c != mask(b.w) && b.c&(b.c-1) == 0 {
			return tt.Shl(a, tt.Const(uint64(bits.TrailingZeros64(b.c)), a.w))
		}
		if a.op == OMul && a.a[1].isConst() {
			return tt.Mul(a.a[0], tt.Const(a.a[1].c*b.c, a.w))
		}
		if a.op == OAdd && a.a[1].isConst() {
			return tt.Add(tt.Mul(a.a[0], b), tt.Const(a.a[1].c*b.c, a.w))
		}
		return tt.mk(OMul, a.w, 0, a, b, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OMul, a.w, 0, a, b, nil)
}

// Division follows SMT-LIB for zero divisors; callers check for zero first.
func (tt *TermTab) UDiv(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return tt.Const(a.c/b.c, a.w)
		}
		if b.c&(b.c-1) == 0 {
			return tt.Lshr(a, tt.Const(uint64(bits.TrailingZeros64(b.c)), a.w))
		}
		if umax(a) < b.c {
			return tt.Const(0, a.w)
		}
	}
	return tt.mk(OUDiv, a.w, 0, a, b, nil)
}

func (tt *TermTab) URem(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return tt.Const(a.c%b.c, a.w)
		}
		if b.c&(b.c-1) == 0 {
			return tt.BAnd(a, tt.Const(b.c-1, a.w))
		}
		if umax(a) < b.c {
			return a
		}
	}
	return tt.mk(OURem, a.w, 0, a, b, nil)
}

func (tt *TermTab) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.c != 0 {
		return tt.Const(uint64(sdiv64(sext(a.c, a.w), sext(b.c, b.w))), a.w)
	}
	if nonneg(a) && nonneg(b) {
		return tt.UDiv(a, b)
	}
	return tt.mk(OSDiv, a.w, 0, a, b, nil)
}

func (tt *TermTab) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.c != 0 {
		return tt.Const(uint64(srem64(sext(a.c, a.w), sext(b.c, b.w))), a.w)
	}
	if nonneg(a) && nonneg(b) {
		return tt.URem(a, b)
	}
	return tt.mk(OSRem, a.w, 0, a, b, nil)
}

func sdiv64(a, b int64) int64 {
	if b == -1 {
		return -a
	}
	return a / b
}
func srem64(a, b int64) int64 {
	if b == -1 {
		return 0
	}
	return a % b
}

// constant-mask And is split into concat of extracts and zeros where the mask
// is a union of few runs.
func (tt *TermTab) BAnd(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return tt.Const(a.c&b.c, a.w)
		}
		if b.c == 0 {
			return b
		}
		if b.c == mask(b.w) {
			return a
		}
		// low mask or shifted run
		runs := 0
		for i, prev := uint8(0), uint64(0); i < b.w; i++ {
			bit := b.c >> i & 1
			if bit == 1 && prev == 0 {
				runs++
			}
			prev = bit
		}
		if runs == 1 {
			lo := uint8(bits.TrailingZeros64(b.c))
			hi := uint8(bits.Len64(b.c) - 1)
			r := tt.Extract(a, hi, lo)
			if lo > 0 {
				r = tt.Concat(r, tt.Const(0, lo))
			}
			return tt.Zext(r, b.w)
		}
		return tt.mk(OBAnd, a.w, 0, a, b, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OBAnd, a.w, 0, a, b, nil)
}

// segs decomposes a term into concat pieces, least significant first.
func (tt *TermTab) segs(t *Term, out []*Term) []*Term {
	switch t.op {
	case OConcat:
		out = tt.segs(t.a[1], out)
		return tt.segs(t.a[0], out)
	case OZext:
		out = tt.segs(t.a[0], out)
		return append(out, tt.Const(0, t.w-t.a[0].w))
	}
	return append(out, t)
}

func zeroSeg(t *Term) bool { return t.op == OConst && t.c == 0 }

func (tt *TermTab) BOr(a, b *Term) *Term { return tt.orLike(OBOr, a, b) }

func (tt *TermTab) orLike(op Op, a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		if op == OBXor {
			return tt.Const(0, a.w)
		}
		return a
	}
	if b.isConst() {
		if a.isConst() {
			if op == OBOr {
				return tt.Const(a.c|b.c, a.w)
			}
			return tt.Const(a.c^b.c, a.w)
		}
		if b.c == 0 {
			return a
		}
		if b.c == mask(b.w) {
			if op == OBOr {
				return b
			}
			return tt.BNot(a)
		}
	}
	// disjoint segment merge
	if isSegmented(a) && (isSegmented(b) || b.isConst()) {
		var sa, sb [16]*Term
		x, y := tt.segs(a, sa[:0]), tt.segs(b, sb[:0])
		var res *Term
		i, j := 0, 0
		var xi, yj *Term
		ok := true
		for i < len(x) || xi != nil {
			if xi == nil {
				xi = x[i]
				i++
			}
			if yj == nil {
				yj = y[j]
				j++
			}
			n := xi.w
			if yj.w < n {
				n = yj.w
			}
			px, py := xi, yj
			if xi.w > n {
				px = tt.Extract(xi, n-1, 0)
				xi = tt.Extract(xi, xi.w-1, n)
			} else {
				xi = nil
			}
			if yj.w > n {
				py = tt.Extract(yj, n-1, 0)
				yj = tt.Extract(yj, yj.w-1, n)
			} else {
				yj = nil
			}
			var piece *Term
			if zeroSeg(px) {
				piece = py
			} else if zeroSeg(py) {
				piece = px
			} else if px.isConst() && py.isConst() {
				if op == OBOr {
					piece = tt.Const(px.c|py.c, n)
				} else {
					piece = tt.Const(px.c^py.c, n)
				}
			} else {
				ok = false
				break
			}
			if res == nil {
				res = piece
			} else {
				res = tt.Concat(piece, res)
			}
		}
		if ok && res != nil {
			return res
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(op, a.w, 0, a, b, nil)
}

func isSegmented(t *Term) bool { return t.op == OConcat || t.op == OZext }

func (tt *TermTab) BXor(a, b *Term) *Term { return tt.orLike(OBXor, a, b) }

func (tt *TermTab) Shl(a, s *Term) *Term {
	if s.isConst() {
		if s.c == 0 {
			return a
		}
		if s.c >= uint64(a.w) {
			return tt.Const(0, a.w)
		}
		k := uint8(s.c)
		return tt.Concat(tt.Extract(a, a.w-1-k, 0), tt.Const(0, k))
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	return tt.mk(OShl, a.w, 0, a, s, nil)
}

func (tt *TermTab) Lshr(a, s *Term) *Term {
	if s.isConst() {
		if s.c == 0 {
			return a
		}
		if s.c >= uint64(a.w) {
			return tt.Const(0, a.w)
		}
		k := uint8(s.c)
		return tt.Zext(tt.Extract(a, a.w-1, k), a.w)
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	return tt.mk(OLshr, a.w, 0, a, s, nil)
}

func (tt *TermTab) Ashr(a, s *Term) *Term {
	if s.isConst() {
		if s.c == 0 {
			return a
		}
		k := s.c
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if nonneg(a) {
			return tt.Lshr(a, s)
		}
		return tt.Sext(tt.Extract(a, a.w-1, uint8(k)), a.w)
	}
	if nonneg(a) {
		return tt.Lshr(a, s)
	}
	return tt.mk(OAshr, a.w, 0, a, s, nil)
}

func (tt *TermTab) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if w > 64 {
		panic("concat too wide")
	}
	if hi.isConst() && lo.isConst() {
		return tt.Const(hi.c<<lo.w|lo.c, w)
	}
	if hi.isConst() && hi.c == 0 {
		return tt.Zext(lo, w)
	}
	if hi.op == OZext {
		return tt.Zext(tt.Concat(hi.a[0], lo), w)
	}
	// merge adjacent extracts
	if hi.op == OExtract && lo.op == OExtract && hi.a[0] == lo.a[0] {
		hlo := uint8(hi.c)
		lhi := uint8(lo.c >> 8)
		if hlo == lhi+1 {
			return tt.Extract(hi.a[0], uint8(hi.c>>8), uint8(lo.c))
		}
	}
	// right-nested normal form: concat(x, concat(y,z)): put merging at boundaries
	if lo.op == OConcat && hi.op == OExtract && lo.a[0].op == OExtract && hi.a[0] == lo.a[0].a[0] &&
		uint8(hi.c) == uint8(lo.a[0].c>>8)+1 {
		return tt.Concat(tt.Extract(hi.a[0], uint8(hi.c>>8), uint8(lo.a[0].c)), lo.a[1])
	}
	if hi.op == OConcat {
		return tt.Concat(hi.a[0], tt.Concat(hi.a[1], lo))
	}
	// lo whose term continues an extract of the whole variable
	if hi.op == OExtract && hi.a[0] == lo {
		// cannot merge: lo is the full term
	}
	return tt.mk(OConcat, w, 0, hi, lo, nil)
}

func (tt *TermTab) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return tt.Const(a.c>>lo, w)
	case OExtract:
		l := uint8(a.c)
		return tt.Extract(a.a[0], hi+l, lo+l)
	case OConcat:
		lw := a.a[1].w
		if hi < lw {
			return tt.Extract(a.a[1], hi, lo)
		}
		if lo >= lw {
			return tt.Extract(a.a[0], hi-lw, lo-lw)
		}
		return tt.Concat(tt.Extract(a.a[0], hi-lw, 0), tt.Extract(a.a[1], lw-1, lo))
	case OZext:
		iw := a.a[0].w
		if hi < iw {
			return tt.Extract(a.a[0], hi, lo)
		}
		if lo >= iw {
			return tt.Const(0, w)
		}
		return tt.Zext(tt.Extract(a.a[0], iw-1, lo), w)
	case OSext:
		iw := a.a[0].w
		if hi < iw {
			return tt.Extract(a.a[0], hi, lo)
		}
		if lo < iw {
			return tt.Sext(tt.Extract(a.a[0], iw-1, lo), w)
		}
	case OIte:
		if a.a[1].isConst() || a.a[2].isConst() {
			return tt.Ite(a.a[0], tt.Extract(a.a[1], hi, lo), tt.Extract(a.a[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		x, y := tt.Extract(a.a[0], hi, lo), tt.Extract(a.a[1], hi, lo)
		switch a.op {
		case OBAnd:
			return tt.BAnd(x, y)
		case OBOr:
			return tt.BOr(x, y)
		}
		return tt.BXor(x, y)
	case OBNot:
		return tt.BNot(tt.Extract(a.a[0], hi, lo))
	case OAdd, OMul:
		if lo == 0 {
			x, y := tt.Extract(a.a[0], hi, 0), tt.Extract(a.a[1], hi, 0)
			if a.op == OAdd {
				return tt.Add(x, y)
			}
			return tt.Mul(x, y)
		}
	}
	return tt.mk(OExtract, w, uint64(hi)<<8|uint64(lo), a, nil, nil)
}

func (tt *TermTab) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tt.Const(a.c, w)
	}
	if a.op == OZext {
		return tt.Zext(a.a[0], w)
	}
	return tt.mk(OZext, w, 0, a, nil, nil)
}

func (tt *TermTab) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tt.Const(uint64(sext(a.c, a.w)), w)
	}
	if a.op == OZext {
		return tt.Zext(a.a[0], w)
	}
	if a.op == OSext {
		return tt.Sext(a.a[0], w)
	}
	return tt.mk(OSext, w, 0, a, nil, nil)
}

// Bin builds op on equal-width operands.
func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	switch op {
	case OEq:
		return tt.Eq(a, b)
	case OUlt:
		return tt.Ult(a, b)
	case OUle:
		return tt.Ule(a, b)
	case OSlt:
		return tt.Slt(a, b)
	case OSle:
		return tt.Sle(a, b)
	case OBAnd:
		return tt.BAnd(a, b)
	case OBOr:
		return tt.BOr(a, b)
	case OBXor:
		return tt.BXor(a, b)
	case OAdd:
		return tt.Add(a, b)
	case OMul:
		return tt.Mul(a, b)
	case OUDiv:
		return tt.UDiv(a, b)
	case OURem:
		return tt.URem(a, b)
	case OSDiv:
		return tt.SDiv(a, b)
	case OSRem:
		return tt.SRem(a, b)
	case OShl:
		return tt.Shl(a, b)
	case OLshr:
		return tt.Lshr(a, b)
	case OAshr:
		return tt.Ashr(a, b)
	}
	panic("Bin")
}

// Model maps variables to values; missing variables are 0.
type Model struct {
	v     map[*Term]uint64
	epoch uint32
}

func (tt *TermTab) NewModel() *Model {
	tt.epoch++
	return &Model{v: map[*Term]uint64{}, epoch: tt.epoch}
}

// with returns m with one variable changed.
func (tt *TermTab) with(m *Model, t *Term, v uint64) *Model {
	if m.v[t] == v {
		return m
	}
	n := tt.NewModel()
	for k, x := range m.v {
		n.v[k] = x
	}
	n.v[t] = v
	return n
}

func (m *Model) set(t *Term, v uint64) { m.v[t] = v }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) Eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return m.v[t]
	}
	if t.mEpoch == m.epoch {
		return t.mVal
	}
	var r uint64
	w := t.w
	switch t.op {
	case ONot:
		r = 1 - m.Eval(t.a[0])
	case OAnd:
		r = m.Eval(t.a[0])
		if r != 0 {
			r = m.Eval(t.a[1])
		}
	case OOr:
		r = m.Eval(t.a[0])
		if r == 0 {
			r = m.Eval(t.a[1])
		}
	case OIte:
		if m.Eval(t.a[0]) != 0 {
			r = m.Eval(t.a[1])
		} else {
			r = m.Eval(t.a[2])
		}
	case OExtract:
		r = m.Eval(t.a[0]) >> uint8(t.c) & mask(w)
	case OZext:
		r = m.Eval(t.a[0])
	case OSext:
		r = uint64(sext(m.Eval(t.a[0]), t.a[0].w)) & mask(w)
	case OBNot:
		r = ^m.Eval(t.a[0]) & mask(w)
	case OConcat:
		r = m.Eval(t.a[0])<<t.a[1].w | m.Eval(t.a[1])
	default:
		a, b := m.Eval(t.a[0]), m.Eval(t.a[1])
		aw := t.a[0].w
		switch t.op {
		case OEq:
			r = b2u(a == b)
		case OUlt:
			r = b2u(a < b)
		case OUle:
			r = b2u(a <= b)
		case OSlt:
			r = b2u(sext(a, aw) < sext(b, aw))
		case OSle:
			r = b2u(sext(a, aw) <= sext(b, aw))
		case OBAnd:
			r = a & b
		case OBOr:
			r = a | b
		case OBXor:
			r = a ^ b
		case OAdd:
			r = (a + b) & mask(w)
		case OMul:
			r = (a * b) & mask(w)
		case OUDiv:
			if b == 0 {
				r = mask(w)
			} else {
				r = a / b
			}
		case OURem:
			if b == 0 {
				r = a
			} else {
				r = a % b
			}
		case OSDiv:
			if b == 0 {
				if sext(a, w) < 0 {
					r = 1
				} else {
					r = mask(w)
				}
			} else {
				r = uint64(sdiv64(sext(a, w), sext(b, w))) & mask(w)
			}
		case OSRem:
			if b == 0 {
				r = a
			} else {
				r = uint64(srem64(sext(a, w), sext(b, w))) & mask(w)
			}
		case OShl:
			if b >= uint64(w) {
				r = 0
			} else {
				r = a << b & mask(w)
			}
		case OLshr:
			if b >= uint64(w) {
				r = 0
			} else {
				r = a >> b
			}
		case OAshr:
			if b >= uint64(w) {
				b = uint64(w) - 1
			}
			r = uint64(sext(a, w)>>b) & mask(w)
		default:
			panic("eval " + opNames[t.op])
		}
	}
	t.mEpoch = m.epoch
	t.mVal = r
	return r
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c == 1 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "%d:%d", t.c, t.w)
	case OVar:
		sb.WriteString(t.name)
	default:
		if d > 8 {
			sb.WriteString("...")
			return
		}
		sb.WriteString("(" + opNames[t.op])
		if t.op == OExtract {
			fmt.Fprintf(sb, "[%d:%d]", t.c>>8, t.c&255)
		}
		if t.op == OZext || t.op == OSext {
			fmt.Fprintf(sb, "[%d]", t.w)
		}
		for _, x := range t.a {
			if x != nil {
				sb.WriteByte(' ')
				x.str(sb, d+1)
			}
		}
		sb.WriteByte(')')
	}
}

// hasHash reports whether the term mentions an output byte of a hash application.
func (tt *TermTab) hasHash(t *Term) bool {
	if t == nil || t.op == OConst || len(tt.apps) == 0 {
		return false
	}
	if t.hashFlag != 0 {
		return t.hashFlag == 1
	}
	r := false
	if t.op == OVar {
		r = t.hash != nil
	} else {
		for _, x := range t.a {
			if tt.hasHash(x) {
				r = true
				break
			}
		}
	}
	if r {
		t.hashFlag = 1
	} else {
		t.hashFlag = 2
	}
	return r
}
