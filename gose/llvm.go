package main

// An interpreter for LLVM IR (clang -O2 -emit-llvm of the C++ index): the C++
// functions called through cgo are executed symbolically over the same terms.

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type llKind uint8

const (
	llVoid llKind = iota
	llInt
	llPtr
	llStruct
	llArray
)

type llType struct {
	k      llKind
	bits   int
	elem   *llType
	n      int
	fields []*llType
	packed bool
	size   uint64
	align  uint64
	offs   []uint64
	laid   bool
	name   string
}

func (t *llType) width() uint8 {
	if t.k == llPtr {
		return 64
	}
	return uint8(t.bits)
}

func (m *llMod) layout(t *llType) {
	if t.laid {
		return
	}
	t.laid = true
	switch t.k {
	case llInt:
		b := uint64(t.bits+7) / 8
		t.align = 1
		for t.align < b && t.align < 8 {
			t.align *= 2
		}
		t.size = (b + t.align - 1) &^ (t.align - 1)
	case llPtr:
		t.size, t.align = 8, 8
	case llArray:
		m.layout(t.elem)
		t.size, t.align = t.elem.size*uint64(t.n), t.elem.align
	case llStruct:
		t.align = 1
		off := uint64(0)
		for _, f := range t.fields {
			m.layout(f)
			a := f.align
			if t.packed {
				a = 1
			}
			off = (off + a - 1) &^ (a - 1)
			t.offs = append(t.offs, off)
			off += f.size
			if a > t.align {
				t.align = a
			}
		}
		t.size = (off + t.align - 1) &^ (t.align - 1)
	}
}

type llOpd struct {
	reg int // -1: constant
	c   uint64
}

type llIns struct {
	op     string
	code   llCode
	dst    int
	w      uint8 // width of the operands
	w2     uint8 // width of the result for casts
	args   []llOpd
	scale  []uint64 // gep
	off    uint64
	pred   string
	fn     *llFn
	callee string
	t1, t2 int
	cases  []uint64
	tgts   []int
	size   uint64
	ptr    bool
}

type llPhi struct {
	dst int
	in  map[int]llOpd
}

type llBlock struct {
	phis []llPhi
	ins  []llIns
}

type llFn struct {
	name   string
	params []int
	pw     []uint8
	nreg   int
	blocks []llBlock
	body   bool
	retW   uint8
}

type llMod struct {
	types   map[string]*llType
	fns     map[string]*llFn
	globals map[string]uint64 // address of constant data
	gdata   [][]byte
	once    sync.Once
	err     error
}

type llCode uint8

const (
	lAdd llCode = iota
	lSub
	lMul
	lUDiv
	lSDiv
	lURem
	lSRem
	lShl
	lLshr
	lAshr
	lAnd
	lOr
	lXor
	lIcmp
	lZext
	lSext
	lTrunc
	lMov
	lSelect
	lGep
	lLoad
	lStore
	lBr
	lCond
	lSwitch
	lRet
	lCall
	lAlloca
	lRMW
	lUnreach
)

var llBin = map[string]llCode{"add": lAdd, "sub": lSub, "mul": lMul, "udiv": lUDiv, "sdiv": lSDiv, "urem": lURem, "srem": lSRem,
	"shl": lShl, "lshr": lLshr, "ashr": lAshr, "and": lAnd, "or": lOr, "xor": lXor}

// ---- parser

type llLex struct {
	toks []string
	p    int
}

func llTokens(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == ';':
			return r
		case c == '"':
			j := strings.IndexByte(s[i+1:], '"') + i + 2
			r = append(r, s[i:j])
			i = j
		case c == 'c' && i+1 < len(s) && s[i+1] == '"':
			j := strings.IndexByte(s[i+2:], '"') + i + 3
			r = append(r, s[i:j])
			i = j
		case (c == '%' || c == '@') && i+1 < len(s) && s[i+1] == '"':
			j := strings.IndexByte(s[i+2:], '"') + i + 3
			r = append(r, string(c)+s[i+2:j-1])
			i = j
		case strings.IndexByte("(),=[]{}<>*", c) >= 0:
			r = append(r, s[i:i+1])
			i++
		default:
			j := i + 1
			for j < len(s) && strings.IndexByte(" \t(),=[]{}<>*\"", s[j]) < 0 {
				j++
			}
			r = append(r, s[i:j])
			i = j
		}
	}
	return r
}

func (l *llLex) peek() string {
	if l.p < len(l.toks) {
		return l.toks[l.p]
	}
	return ""
}
func (l *llLex) next() string {
	s := l.peek()
	l.p++
	return s
}
func (l *llLex) eat(s string) bool {
	if l.peek() == s {
		l.p++
		return true
	}
	return false
}
func (l *llLex) want(s string) {
	if !l.eat(s) {
		panic(fmt.Sprintf("llvm: expected %s at %d in %v", s, l.p, l.toks))
	}
}
func (l *llLex) skipParens() {
	l.want("(")
	for d := 1; d > 0; {
		switch l.next() {
		case "(":
			d++
		case ")":
			d--
		case "":
			panic("llvm: unbalanced")
		}
	}
}

func (m *llMod) parseType(l *llLex) *llType {
	t := l.next()
	switch {
	case t == "void":
		return &llType{k: llVoid}
	case t == "ptr":
		return &llType{k: llPtr}
	case len(t) > 1 && t[0] == 'i' && t[1] >= '0' && t[1] <= '9':
		n, _ := strconv.Atoi(t[1:])
		return &llType{k: llInt, bits: n}
	case t == "[":
		n, _ := strconv.Atoi(l.next())
		l.want("x")
		e := m.parseType(l)
		l.want("]")
		return &llType{k: llArray, elem: e, n: n}
	case t == "{":
		return m.structBody(l, false)
	case t == "<":
		l.want("{")
		r := m.structBody(l, true)
		l.want(">")
		return r
	case strings.HasPrefix(t, "%"):
		n := m.types[t]
		if n == nil {
			n = &llType{k: llStruct, name: t}
			m.types[t] = n
		}
		return n
	}
	panic("llvm: type " + t + " in " + strings.Join(l.toks, " "))
}

func (m *llMod) structBody(l *llLex, packed bool) *llType {
	r := &llType{k: llStruct, packed: packed}
	for !l.eat("}") {
		r.fields = append(r.fields, m.parseType(l))
		l.eat(",")
	}
	return r
}

func isTypeTok(t string) bool {
	return t == "ptr" || t == "void" || t == "[" || t == "{" || t == "<" || (len(t) > 1 && t[0] == 'i' && t[1] >= '0' && t[1] <= '9') || strings.HasPrefix(t, "%")
}

func (l *llLex) skipAttrs() {
	for {
		switch t := l.peek(); t {
		case "noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "noalias", "zeroext", "signext", "immarg", "writable", "dead_on_unwind", "inreg", "returned", "dead_on_return", "nofree":
			l.p++
		case "align":
			l.p += 2
		case "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range":
			l.p++
			l.skipParens()
		default:
			return
		}
	}
}

type llFnParser struct {
	m      *llMod
	f      *llFn
	regs   map[string]int
	labels map[string]int
}

func (p *llFnParser) reg(n string) int {
	if r, ok := p.regs[n]; ok {
		return r
	}
	r := len(p.regs)
	p.regs[n] = r
	return r
}
func (p *llFnParser) label(n string) int {
	n = strings.TrimPrefix(n, "%")
	if r, ok := p.labels[n]; ok {
		return r
	}
	r := len(p.labels)
	p.labels[n] = r
	for len(p.f.blocks) <= r {
		p.f.blocks = append(p.f.blocks, llBlock{})
	}
	return r
}

func (p *llFnParser) opd(l *llLex, t *llType) llOpd {
	s := l.next()
	switch {
	case strings.HasPrefix(s, "%"):
		return llOpd{reg: p.reg(s)}
	case strings.HasPrefix(s, "@"):
		return llOpd{reg: -1, c: p.m.global(s)}
	case s == "true":
		return llOpd{reg: -1, c: 1}
	case s == "false", s == "null", s == "undef", s == "poison", s == "zeroinitializer":
		return llOpd{reg: -1}
	}
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return llOpd{reg: -1, c: uint64(n) & mask(t.width())}
	}
	if n, err := strconv.ParseUint(s, 10, 64); err == nil {
		return llOpd{reg: -1, c: n & mask(t.width())}
	}
	panic("llvm: operand " + s + " in " + strings.Join(l.toks, " "))
}

func (m *llMod) global(s string) uint64 {
	if a, ok := m.globals[s]; ok {
		return a
	}
	a := uint64(0xfff00000+len(m.globals)) << 32
	m.globals[s] = a
	return a
}

func parseLLVM(src string) (m *llMod, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	m = &llMod{types: map[string]*llType{}, fns: map[string]*llFn{}, globals: map[string]uint64{}}
	lines := strings.Split(src, "\n")
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		switch {
		case strings.HasPrefix(ln, "%"):
			l := &llLex{toks: llTokens(ln)}
			n := l.next()
			l.want("=")
			l.want("type")
			if l.peek() == "opaque" {
				continue
			}
			t := m.parseType(l)
			if o := m.types[n]; o != nil {
				nm := o.name
				*o = *t
				o.name = nm
			} else {
				t.name = n
				m.types[n] = t
			}
		case strings.HasPrefix(ln, "define"):
			j := i + 1
			for lines[j] != "}" {
				j++
			}
			m.parseFn(ln, lines[i+1:j])
			i = j
		}
	}
	return m, nil
}

func (m *llMod) fn(name string) *llFn {
	f := m.fns[name]
	if f == nil {
		f = &llFn{name: name}
		m.fns[name] = f
	}
	return f
}

func (m *llMod) parseFn(head string, body []string) {
	l := &llLex{toks: llTokens(head)}
	var rt *llType
	for {
		t := l.peek()
		if strings.HasPrefix(t, "@") {
			break
		}
		if isTypeTok(t) {
			rt = m.parseType(l)
			continue
		}
		if t == "dereferenceable" || t == "dereferenceable_or_null" || t == "range" {
			l.p++
			l.skipParens()
			continue
		}
		l.p++
	}
	f := m.fn(l.next()[1:])
	f.body = true
	if rt != nil && rt.k != llVoid {
		f.retW = rt.width()
	}
	p := &llFnParser{m: m, f: f, regs: map[string]int{}, labels: map[string]int{}}
	l.want("(")
	np := 0
	for !l.eat(")") {
		t := m.parseType(l)
		l.skipAttrs()
		n := l.peek()
		if strings.HasPrefix(n, "%") {
			l.p++
		} else {
			n = fmt.Sprintf("%%%d", np)
		}
		f.params = append(f.params, p.reg(n))
		f.pw = append(f.pw, t.width())
		np++
		l.eat(",")
	}
	cur := p.label(strconv.Itoa(np)) // the entry block takes the next number
	for i := 0; i < len(body); i++ {
		ln := body[i]
		if strings.TrimSpace(ln) == "" {
			continue
		}
		if !strings.HasPrefix(ln, " ") {
			cur = p.label(ln[:strings.IndexByte(ln, ':')])
			continue
		}
		if strings.Contains(ln, " switch ") && !strings.Contains(ln, "]") {
			for !strings.Contains(ln, "]") {
				i++
				ln += " " + body[i]
			}
		}
		p.ins(ln, cur)
	}
	f.nreg = len(p.regs)
}

func (p *llFnParser) ins(ln string, cur int) {
	if i := strings.Index(ln, ", !"); i >= 0 {
		ln = ln[:i]
	}
	l := &llLex{toks: llTokens(ln)}
	in := llIns{dst: -1}
	if strings.HasPrefix(l.peek(), "%") && len(l.toks) > 1 && l.toks[1] == "=" {
		in.dst = p.reg(l.next())
		l.next()
	}
	op := l.next()
	if op == "tail" || op == "musttail" || op == "notail" {
		op = l.next()
	}
	in.op = op
	m := p.m
	b := &p.f.blocks[cur]
	flags := func() {
		for {
			switch l.peek() {
			case "nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "volatile", "samesign", "fast", "nusw":
				l.p++
			default:
				return
			}
		}
	}
	add := func() { p.f.blocks[cur].ins = append(p.f.blocks[cur].ins, in) }
	if c, ok := llBin[op]; ok {
		flags()
		t := m.parseType(l)
		in.code, in.w = c, t.width()
		in.args = append(in.args, p.opd(l, t))
		l.want(",")
		in.args = append(in.args, p.opd(l, t))
		add()
		return
	}
	switch op {
	case "icmp":
		flags()
		in.code, in.pred = lIcmp, l.next()
		t := m.parseType(l)
		in.w = t.width()
		in.args = append(in.args, p.opd(l, t))
		l.want(",")
		in.args = append(in.args, p.opd(l, t))
	case "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze":
		flags()
		t := m.parseType(l)
		in.w = t.width()
		in.args = append(in.args, p.opd(l, t))
		in.w2 = in.w
		if l.eat("to") {
			in.w2 = m.parseType(l).width()
		}
		switch {
		case in.w2 > in.w && op == "sext":
			in.code = lSext
		case in.w2 > in.w:
			in.code = lZext
		case in.w2 < in.w:
			in.code = lTrunc
		default:
			in.code = lMov
		}
	case "select":
		in.code = lSelect
		m.parseType(l)
		in.args = append(in.args, p.opd(l, &llType{k: llInt, bits: 1}))
		l.want(",")
		t := m.parseType(l)
		in.w, in.ptr = t.width(), t.k == llPtr
		in.args = append(in.args, p.opd(l, t))
		l.want(",")
		m.parseType(l)
		in.args = append(in.args, p.opd(l, t))
	case "getelementptr":
		flags()
		in.code = lGep
		t := m.parseType(l)
		l.want(",")
		m.parseType(l)
		in.args = append(in.args, p.opd(l, &llType{k: llPtr}))
		in.scale = append(in.scale, 0)
		for first := true; l.eat(","); first = false {
			it := m.parseType(l)
			o := p.opd(l, it)
			m.layout(t)
			if first {
				if o.reg < 0 {
					in.off += uint64(sext(o.c, it.width())) * t.size
				} else {
					in.args, in.scale = append(in.args, o), append(in.scale, t.size)
					in.cases = append(in.cases, uint64(it.width()))
				}
				continue
			}
			switch t.k {
			case llStruct:
				in.off += t.offs[o.c]
				t = t.fields[o.c]
			case llArray:
				m.layout(t.elem)
				if o.reg < 0 {
					in.off += uint64(sext(o.c, it.width())) * t.elem.size
				} else {
					in.args, in.scale = append(in.args, o), append(in.scale, t.elem.size)
					in.cases = append(in.cases, uint64(it.width()))
				}
				t = t.elem
			default:
				panic("llvm: gep into scalar")
			}
		}
	case "load":
		in.code = lLoad
		l.eat("atomic")
		flags()
		t := m.parseType(l)
		in.w = t.width()
		l.want(",")
		m.parseType(l)
		in.args = append(in.args, p.opd(l, &llType{k: llPtr}))
	case "store":
		in.code = lStore
		l.eat("atomic")
		flags()
		t := m.parseType(l)
		in.w = t.width()
		in.args = append(in.args, p.opd(l, t))
		l.want(",")
		m.parseType(l)
		in.args = append(in.args, p.opd(l, &llType{k: llPtr}))
	case "atomicrmw":
		in.code = lRMW
		flags()
		in.pred = l.next()
		m.parseType(l)
		in.args = append(in.args, p.opd(l, &llType{k: llPtr}))
		l.want(",")
		t := m.parseType(l)
		in.w = t.width()
		in.args = append(in.args, p.opd(l, t))
	case "alloca":
		in.code = lAlloca
		t := m.parseType(l)
		m.layout(t)
		in.size = t.size
		if l.eat(",") && isTypeTok(l.peek()) && l.peek() != "align" {
			panic("llvm: dynamic alloca")
		}
	case "br":
		if l.eat("label") {
			in.code = lBr
			in.t1 = p.label(l.next())
		} else {
			in.code = lCond
			m.parseType(l)
			in.args = append(in.args, p.opd(l, &llType{k: llInt, bits: 1}))
			l.want(",")
			l.want("label")
			in.t1 = p.label(l.next())
			l.want(",")
			l.want("label")
			in.t2 = p.label(l.next())
		}
	case "switch":
		in.code = lSwitch
		t := m.parseType(l)
		in.w = t.width()
		in.args = append(in.args, p.opd(l, t))
		l.want(",")
		l.want("label")
		in.t1 = p.label(l.next())
		l.want("[")
		for !l.eat("]") {
			m.parseType(l)
			in.cases = append(in.cases, p.opd(l, t).c)
			l.want(",")
			l.want("label")
			in.tgts = append(in.tgts, p.label(l.next()))
		}
	case "ret":
		in.code = lRet
		t := m.parseType(l)
		if t.k != llVoid {
			in.args = append(in.args, p.opd(l, t))
		}
	case "unreachable":
		in.code = lUnreach
	case "call":
		in.code = lCall
		flags()
		for !isTypeTok(l.peek()) {
			if t := l.next(); t == "dereferenceable" || t == "dereferenceable_or_null" || t == "range" {
				l.skipParens()
			}
		}
		t := m.parseType(l)
		if t.k != llVoid {
			in.w = t.width()
		}
		in.callee = l.next()
		if !strings.HasPrefix(in.callee, "@") {
			panic("llvm: indirect call")
		}
		in.callee = in.callee[1:]
		if strings.HasPrefix(in.callee, "llvm.lifetime") || strings.HasPrefix(in.callee, "llvm.experimental.noalias") || strings.HasPrefix(in.callee, "llvm.assume") || strings.HasPrefix(in.callee, "llvm.dbg") {
			return
		}
		l.want("(")
		for !l.eat(")") {
			at := m.parseType(l)
			l.skipAttrs()
			in.args = append(in.args, p.opd(l, at))
			l.eat(",")
		}
		in.fn = m.fn(in.callee)
	case "phi":
		t := m.parseType(l)
		ph := llPhi{dst: in.dst, in: map[int]llOpd{}}
		for l.eat("[") || l.eat(",") {
			if l.peek() == "[" {
				continue
			}
			o := p.opd(l, t)
			l.want(",")
			ph.in[p.label(l.next())] = o
			b = &p.f.blocks[cur]
			l.want("]")
		}
		b.phis = append(b.phis, ph)
		return
	default:
		panic("llvm: instruction " + op)
	}
	add()
}

// ---- execution

// cAddr makes an address for a slot range of an object.
func (e *Engine) cObj(o *Obj) uint64 {
	e.cmem = append(e.cmem, o)
	n := len(e.cmem) - 1
	e.addUndo(func() { e.cmem = e.cmem[:n] })
	return uint64(n+1) << 32
}

func (e *Engine) cAt(a uint64, n int) (*Obj, int) {
	i := a >> 32
	if i == 0 || i > uint64(len(e.cmem)) {
		panic(cppFault{fmt.Sprintf("C++ access through an invalid pointer %#x", a)})
	}
	o := e.cmem[i-1]
	if o == nil {
		panic(cppFault{"C++ access to freed memory"})
	}
	off := int(uint32(a))
	if off+n > o.n {
		panic(cppFault{fmt.Sprintf("C++ access outside its object (offset %d of %d)", off, o.n)})
	}
	return o, off
}

type cppFault struct{ msg string }

func (e *Engine) cLoad(a uint64, w uint8) Value {
	n := (int(w) + 7) / 8
	o, off := e.cAt(a, n)
	j := off & (pageSize - 1)
	if j+n <= pageSize {
		pg := o.pages[off>>pageBits]
		if pg == nil {
			return Value{}
		}
		if pg.v == nil {
			var x uint64
			for i := n - 1; i >= 0; i-- {
				x = x<<8 | uint64(pg.b[j+i])
			}
			return Value{n: x & mask(w)}
		}
	}
	var x uint64
	sym := false
	var bs [8]Value
	for i := n - 1; i >= 0; i-- {
		bs[i] = o.get(off + i)
		if bs[i].p != nil {
			sym = true
		}
		x = x<<8 | bs[i].n
	}
	if !sym {
		return Value{n: x & mask(w)}
	}
	byteT := func(v Value) *Term {
		t := e.term(v, 8)
		if t.w == 0 {
			t = e.b2i(t, 8)
		}
		return t
	}
	t := byteT(bs[n-1])
	for i := n - 2; i >= 0; i-- {
		t = e.tt.Concat(t, byteT(bs[i]))
	}
	return fromTerm(e.ltrunc(t, w))
}

// i1 values are Bool terms.
func (e *Engine) b2i(t *Term, w uint8) *Term {
	return e.tt.Ite(t, e.tt.Const(1, w), e.tt.Const(0, w))
}

func (e *Engine) ltrunc(t *Term, w uint8) *Term {
	if w == 1 {
		return e.tt.Not(e.tt.Eq(e.tt.Extract(t, 0, 0), e.tt.Const(0, 1)))
	}
	if t.w > w {
		t = e.tt.Extract(t, w-1, 0)
	}
	return t
}

func (e *Engine) lterm(v Value, w uint8) *Term {
	if w == 1 {
		return e.boolTerm(v)
	}
	return e.term(v, w)
}

func (e *Engine) cStore(a uint64, v Value, w uint8) {
	n := (int(w) + 7) / 8
	o, off := e.cAt(a, n)
	if v.p == nil {
		for i := 0; i < n; i++ {
			e.set(o, off+i, Value{n: v.n >> (8 * uint(i)) & 255})
		}
		return
	}
	t := e.lterm(v, w)
	if w == 1 {
		t = e.b2i(t, 8)
	} else if int(w) < 8*n {
		t = e.tt.Zext(t, uint8(8*n))
	}
	for i := 0; i < n; i++ {
		e.set(o, off+i, fromTerm(e.tt.Extract(t, uint8(8*i+7), uint8(8*i))))
	}
}

func (e *Engine) cAddr(v Value) uint64 {
	if t, ok := v.p.(*Term); ok {
		return e.concretize(t, "C++ address")
	}
	return v.n
}

func (m *llMod) run(e *Engine, f *llFn, args []Value, depth int) Value {
	if !f.body {
		e.unsup("C++ function %s", f.name)
	}
	if depth > 200 {
		e.unsup("C++ recursion too deep")
	}
	regs := make([]Value, f.nreg)
	for i, r := range f.params {
		regs[r] = args[i]
	}
	get := func(o *llOpd) Value {
		if o.reg >= 0 {
			return regs[o.reg]
		}
		return Value{n: o.c}
	}
	prev, cur := -1, 0
	var tmp []Value
	for {
		b := &f.blocks[cur]
		if len(b.phis) > 0 {
			tmp = tmp[:0]
			for i := range b.phis {
				o := b.phis[i].in[prev]
				tmp = append(tmp, get(&o))
			}
			for i := range b.phis {
				regs[b.phis[i].dst] = tmp[i]
			}
		}
		e.pathStep += int64(len(b.ins))
		e.steps += int64(len(b.ins))
		next := -1
		for k := range b.ins {
			in := &b.ins[k]
			switch in.code {
			case lAdd, lSub, lMul, lUDiv, lSDiv, lURem, lSRem, lShl, lLshr, lAshr, lAnd, lOr, lXor:
				x, y := get(&in.args[0]), get(&in.args[1])
				if x.p == nil && y.p == nil {
					regs[in.dst] = Value{n: llBinConc(in.code, x.n, y.n, in.w)}
				} else {
					regs[in.dst] = fromTerm(e.llBinTerm(in.code, e.lterm(x, in.w), e.lterm(y, in.w)))
				}
			case lIcmp:
				x, y := get(&in.args[0]), get(&in.args[1])
				regs[in.dst] = e.llCmp(in.pred, x, y, in.w)
			case lMov:
				regs[in.dst] = get(&in.args[0])
			case lZext:
				x := get(&in.args[0])
				if x.p != nil {
					if in.w == 1 {
						x = fromTerm(e.b2i(e.boolTerm(x), in.w2))
					} else {
						x = fromTerm(e.tt.Zext(e.term(x, in.w), in.w2))
					}
				}
				regs[in.dst] = x
			case lSext:
				x := get(&in.args[0])
				if x.p != nil {
					if in.w == 1 {
						x = fromTerm(e.tt.Ite(e.boolTerm(x), e.tt.Const(mask(in.w2), in.w2), e.tt.Const(0, in.w2)))
					} else {
						x = fromTerm(e.tt.Sext(e.term(x, in.w), in.w2))
					}
				} else {
					x.n = uint64(sext(x.n, in.w)) & mask(in.w2)
				}
				regs[in.dst] = x
			case lTrunc:
				x := get(&in.args[0])
				if x.p != nil {
					x = fromTerm(e.ltrunc(e.term(x, in.w), in.w2))
				} else {
					x.n &= mask(in.w2)
				}
				regs[in.dst] = x
			case lSelect:
				c := get(&in.args[0])
				x, y := get(&in.args[1]), get(&in.args[2])
				if c.p != nil && !in.ptr {
					if in.w == 1 {
						regs[in.dst] = fromTerm(e.tt.Ite(e.boolTerm(c), e.boolTerm(x), e.boolTerm(y)))
					} else {
						regs[in.dst] = fromTerm(e.tt.Ite(e.boolTerm(c), e.term(x, in.w), e.term(y, in.w)))
					}
				} else if e.decideV(c) {
					regs[in.dst] = x
				} else {
					regs[in.dst] = y
				}
			case lGep:
				base := get(&in.args[0])
				a := Value{n: e.cAddr(base) + in.off}
				for i := 1; i < len(in.args); i++ {
					x := get(&in.args[i])
					if t, ok := x.p.(*Term); ok {
						x = Value{n: e.concretize(t, "C++ index")}
					}
					a.n += uint64(sext(x.n, uint8(in.cases[i-1]))) * in.scale[i]
				}
				regs[in.dst] = a
			case lLoad:
				regs[in.dst] = e.cLoad(e.cAddr(get(&in.args[0])), in.w)
			case lStore:
				e.cStore(e.cAddr(get(&in.args[1])), get(&in.args[0]), in.w)
			case lRMW:
				a := e.cAddr(get(&in.args[0]))
				old := e.cLoad(a, in.w)
				x := get(&in.args[1])
				c := map[string]llCode{"add": lAdd, "sub": lSub, "and": lAnd, "or": lOr, "xor": lXor}
				switch code, ok := c[in.pred]; {
				case in.pred == "xchg":
					e.cStore(a, x, in.w)
				case !ok:
					e.unsup("C++ atomicrmw %s", in.pred)
				case old.p == nil && x.p == nil:
					e.cStore(a, Value{n: llBinConc(code, old.n, x.n, in.w)}, in.w)
				default:
					e.cStore(a, fromTerm(e.llBinTerm(code, e.term(old, in.w), e.term(x, in.w))), in.w)
				}
				regs[in.dst] = old
			case lAlloca:
				o := e.newObj(int(in.size), 1)
				regs[in.dst] = Value{n: e.cObj(o)}
			case lBr:
				next = in.t1
			case lCond:
				if e.decideV(get(&in.args[0])) {
					next = in.t1
				} else {
					next = in.t2
				}
			case lSwitch:
				x := get(&in.args[0])
				if t, ok := x.p.(*Term); ok {
					x = Value{n: e.concretize(t, "C++ switch")}
				}
				next = in.t1
				for i, c := range in.cases {
					if c == x.n {
						next = in.tgts[i]
						break
					}
				}
			case lRet:
				if len(in.args) == 0 {
					return Value{}
				}
				return get(&in.args[0])
			case lUnreach:
				panic(cppFault{"C++ reached code the compiler takes for unreachable"})
			case lCall:
				as := make([]Value, len(in.args))
				for i := range in.args {
					as[i] = get(&in.args[i])
				}
				var r Value
				if in.fn.body {
					r = m.run(e, in.fn, as, depth+1)
				} else {
					r = m.builtin(e, in, as)
				}
				if in.dst >= 0 {
					regs[in.dst] = r
				}
			}
		}
		if e.pathStep > e.maxSteps {
			panic(pathEnd{"step limit in C++"})
		}
		if next < 0 {
			e.unsup("C++ block without terminator in %s", f.name)
		}
		prev, cur = cur, next
	}
}

func (m *llMod) builtin(e *Engine, in *llIns, a []Value) Value {
	n := in.callee
	switch {
	case n == "_Znwm" || n == "_Znam" || n == "malloc":
		sz := e.cAddr(a[0])
		if sz > 1<<28 {
			e.unsup("C++ allocation of %d bytes", sz)
		}
		return Value{n: e.cObj(e.newObj(int(sz), 1))}
	case n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "free":
		p := e.cAddr(a[0])
		if p == 0 {
			return Value{}
		}
		e.cAt(p, 0)
		if uint32(p) != 0 {
			panic(cppFault{"C++ delete of an inner pointer"})
		}
		i := p>>32 - 1
		o := e.cmem[i]
		e.cmem[i] = nil
		e.addUndo(func() { e.cmem[i] = o })
		return Value{}
	case n == "__assert_fail":
		panic(cppFault{"C++ assertion failed"})
	case n == "abort" || n == "_ZSt9terminatev" || strings.HasPrefix(n, "_ZSt") && strings.Contains(n, "throw"):
		panic(cppFault{"C++ " + n})
	case strings.HasPrefix(n, "llvm.memcpy") || strings.HasPrefix(n, "llvm.memmove") || n == "memcpy" || n == "memmove":
		k := int(e.cAddr(a[2]))
		if k == 0 {
			return a[0]
		}
		do, doff := e.cAt(e.cAddr(a[0]), k)
		so, soff := e.cAt(e.cAddr(a[1]), k)
		if do == so {
			e.setN(do, doff, e.getN(so, soff, k))
		} else {
			e.copySlots(do, doff, so, soff, k)
		}
		return a[0]
	case strings.HasPrefix(n, "llvm.memset") || n == "memset":
		k := int(e.cAddr(a[2]))
		if k == 0 {
			return a[0]
		}
		o, off := e.cAt(e.cAddr(a[0]), k)
		v := a[1]
		if v.p == nil {
			v.n &= 255
		}
		if v.p == nil && v.n == 0 {
			e.zeroN(o, off, k)
		} else {
			for i := 0; i < k; i++ {
				e.set(o, off+i, v)
			}
		}
		return a[0]
	case strings.HasPrefix(n, "llvm.umax"), strings.HasPrefix(n, "llvm.umin"), strings.HasPrefix(n, "llvm.smax"), strings.HasPrefix(n, "llvm.smin"):
		p := map[string]string{"umax": "uge", "umin": "ule", "smax": "sge", "smin": "sle"}[n[5:9]]
		c := e.llCmp(p, a[0], a[1], in.w)
		if c.p == nil {
			if c.n != 0 {
				return a[0]
			}
			return a[1]
		}
		return fromTerm(e.tt.Ite(e.boolTerm(c), e.term(a[0], in.w), e.term(a[1], in.w)))
	case strings.HasPrefix(n, "llvm.bswap"):
		nb := in.w / 8
		t := e.term(a[0], in.w)
		r := e.tt.Extract(t, 7, 0)
		for i := uint8(1); i < nb; i++ {
			r = e.tt.Concat(r, e.tt.Extract(t, 8*i+7, 8*i))
		}
		return fromTerm(r)
	case strings.HasPrefix(n, "llvm.fshl"), strings.HasPrefix(n, "llvm.fshr"):
		s := e.cAddr(a[2]) % uint64(in.w)
		x, y := e.term(a[0], in.w), e.term(a[1], in.w)
		if strings.HasPrefix(n, "llvm.fshr") {
			if s == 0 {
				return a[1]
			}
			s = uint64(in.w) - s
		}
		if s == 0 {
			return a[0]
		}
		c := func(v uint64) *Term { return e.tt.Const(v, in.w) }
		return fromTerm(e.tt.BOr(e.tt.Shl(x, c(s)), e.tt.Lshr(y, c(uint64(in.w)-s))))
	}
	e.unsup("C++ function %s", n)
	return Value{}
}

func llBinConc(c llCode, x, y uint64, w uint8) uint64 {
	m := mask(w)
	sx, sy := int64(sext(x, w)), int64(sext(y, w))
	switch c {
	case lAdd:
		return (x + y) & m
	case lSub:
		return (x - y) & m
	case lMul:
		return (x * y) & m
	case lUDiv:
		if y == 0 {
			panic(cppFault{"C++ division by zero"})
		}
		return x / y
	case lURem:
		if y == 0 {
			panic(cppFault{"C++ division by zero"})
		}
		return x % y
	case lSDiv:
		if y == 0 {
			panic(cppFault{"C++ division by zero"})
		}
		return uint64(sx/sy) & m
	case lSRem:
		if y == 0 {
			panic(cppFault{"C++ division by zero"})
		}
		return uint64(sx%sy) & m
	case lShl:
		return (x << y) & m
	case lLshr:
		return x >> y
	case lAshr:
		return uint64(sx>>y) & m
	case lAnd:
		return x & y
	case lOr:
		return x | y
	}
	return x ^ y
}

func (e *Engine) llBinTerm(c llCode, x, y *Term) *Term {
	t := e.tt
	if x.w == 0 {
		switch c {
		case lAnd:
			return t.And(x, y)
		case lOr:
			return t.Or(x, y)
		case lXor, lAdd, lSub:
			return t.Or(t.And(x, t.Not(y)), t.And(t.Not(x), y))
		}
		e.unsup("C++ i1 arithmetic")
	}
	switch c {
	case lAdd:
		return t.Add(x, y)
	case lSub:
		return t.Sub(x, y)
	case lMul:
		return t.Mul(x, y)
	case lUDiv:
		return t.UDiv(x, y)
	case lURem:
		return t.URem(x, y)
	case lSDiv:
		return t.SDiv(x, y)
	case lSRem:
		return t.SRem(x, y)
	case lShl:
		return t.Shl(x, y)
	case lLshr:
		return t.Lshr(x, y)
	case lAshr:
		return t.Ashr(x, y)
	case lAnd:
		return t.BAnd(x, y)
	case lOr:
		return t.BOr(x, y)
	}
	return t.BXor(x, y)
}

func (e *Engine) llCmp(p string, x, y Value, w uint8) Value {
	if x.p == nil && y.p == nil {
		sx, sy := int64(sext(x.n, w)), int64(sext(y.n, w))
		switch p {
		case "eq":
			return boolV(x.n == y.n)
		case "ne":
			return boolV(x.n != y.n)
		case "ult":
			return boolV(x.n < y.n)
		case "ule":
			return boolV(x.n <= y.n)
		case "ugt":
			return boolV(x.n > y.n)
		case "uge":
			return boolV(x.n >= y.n)
		case "slt":
			return boolV(sx < sy)
		case "sle":
			return boolV(sx <= sy)
		case "sgt":
			return boolV(sx > sy)
		}
		return boolV(sx >= sy)
	}
	t := e.tt
	if w == 1 {
		a, b := e.boolTerm(x), e.boolTerm(y)
		eq := t.Or(t.And(a, b), t.And(t.Not(a), t.Not(b)))
		switch p {
		case "eq":
			return fromTerm(eq)
		case "ne":
			return fromTerm(t.Not(eq))
		}
		e.unsup("C++ i1 comparison %s", p)
	}
	a, b := e.term(x, w), e.term(y, w)
	switch p {
	case "eq":
		return fromTerm(t.Eq(a, b))
	case "ne":
		return fromTerm(t.Not(t.Eq(a, b)))
	case "ult":
		return fromTerm(t.Ult(a, b))
	case "ule":
		return fromTerm(t.Ule(a, b))
	case "ugt":
		return fromTerm(t.Ult(b, a))
	case "uge":
		return fromTerm(t.Ule(b, a))
	case "slt":
		return fromTerm(t.Slt(a, b))
	case "sle":
		return fromTerm(t.Sle(a, b))
	case "sgt":
		return fromTerm(t.Slt(b, a))
	}
	return fromTerm(t.Sle(b, a))
}

// ---- bridge

var cppMod struct {
	once sync.Once
	m    *llMod
	err  error
}

func loadCpp() (*llMod, error) {
	cppMod.once.Do(func() {
		dir := filepath.Join(repoDir, "indextree/b/cppbtree")
		files, _ := filepath.Glob(filepath.Join(dir, "*.cpp"))
		if len(files) != 1 {
			cppMod.err = fmt.Errorf("expected one C++ file in %s", dir)
			return
		}
		tmp, err := os.MkdirTemp("", "gosell")
		if err != nil {
			cppMod.err = err
			return
		}
		defer os.RemoveAll(tmp)
		out := filepath.Join(tmp, "o.ll")
		cmd := exec.Command("clang++", "-O2", "-std=c++11", "-fno-exceptions", "-fno-rtti", "-fno-vectorize", "-fno-slp-vectorize", "-S", "-emit-llvm", "-o", out, files[0])
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "PATH=/usr/local/bin:/usr/bin:/bin")
		if o, err := cmd.CombinedOutput(); err != nil {
			cppMod.err = fmt.Errorf("clang++: %v %s", err, o)
			return
		}
		src, err := os.ReadFile(out)
		if err != nil {
			cppMod.err = err
			return
		}
		cppMod.m, cppMod.err = parseLLVM(string(src))
	})
	return cppMod.m, cppMod.err
}

func (e *Engine) cgoCall(name string, a []Value, fn *ssa.Function) (ret Value, c ctl) {
	m, err := loadCpp()
	if err != nil {
		e.unsup("C++: %v", err)
	}
	f := m.fns[name]
	if f == nil || !f.body {
		e.unsup("cgo call %s", name)
	}
	// a fork inside the call undoes everything the call did so far
	e.stampC++
	e.stamp = e.stampC
	e.forceTrail = true
	if fr := e.gs[e.cur].frames; len(fr) > 0 {
		fr[len(fr)-1].stamp = e.stamp
	}
	defer func() {
		e.forceTrail = false
		if r := recover(); r != nil {
			if cf, ok := r.(cppFault); ok {
				panic(goPanic{val: e.rtErrVal(cf.msg), msg: cf.msg, rt: true})
			}
			panic(r)
		}
		if len(e.choices) == 0 {
			e.trail = e.trail[:e.insTrail]
		}
	}()
	sig := fn.Signature
	var args []Value
	var kv *Obj
	var st *types.Struct
	if sig.Results().Len() == 1 {
		if s, ok := sig.Results().At(0).Type().Underlying().(*types.Struct); ok {
			st = s
			kv = e.newObj(64, 1)
			args = append(args, Value{n: e.cObj(kv)})
		}
	}
	type alias struct {
		o   *Obj
		off int
	}
	var bools []alias
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		v := a[i]
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if v.p == nil {
				args = append(args, Value{})
				continue
			}
			o, ok := v.p.(*Obj)
			if !ok || !isBool(u.Elem()) {
				e.unsup("cgo pointer argument")
			}
			args = append(args, Value{n: e.cObj(o) + v.n})
			bools = append(bools, alias{o, int(v.n)})
		default:
			args = append(args, v)
		}
	}
	r := m.run(e, f, args, 0)
	for _, b := range bools {
		if t, ok := b.o.get(b.off).p.(*Term); ok && t.w == 8 {
			e.set(b.o, b.off, fromTerm(e.tt.Not(e.tt.Eq(t, e.tt.Const(0, 8)))))
		}
	}
	if st != nil {
		var vs []Value
		off := uint64(0)
		base := args[0].n
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			w, _, ok := intInfo(ft)
			if !ok { // padding
				n := e.slots(ft)
				vs = append(vs, make([]Value, n)...)
				continue
			}
			sz := uint64(w / 8)
			off = (off + sz - 1) &^ (sz - 1)
			vs = append(vs, e.cLoad(base+off, w))
			off += sz
		}
		r = Value{p: &Agg{vs}}
	}
	return r, cNext
}
