package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	r int
	c Value
}

func (o opnd) get(f *Frame) Value {
	if o.r >= 0 {
		return f.regs[o.r]
	}
	return o.c
}

type compiler struct {
	e    *Engine
	fn   *ssa.Function
	out  *Fn
	regs map[ssa.Value]int
	fvs  map[ssa.Value]int
}

func (e *Engine) getFn(fn *ssa.Function) *Fn {
	if f, ok := e.fns[fn]; ok {
		return f
	}
	f := e.compileFn(fn)
	e.fns[fn] = f
	return f
}

func (e *Engine) compileFn(fn *ssa.Function) *Fn {
	out := &Fn{fn: fn, name: fn.String()}
	if o := fn.Origin(); o != nil {
		out.name = o.String()
	}
	if fn.Pkg != nil {
		out.inRepo = e.ld.inRepo(fn.Pkg.Pkg.Path())
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		out.inRepo = e.ld.inRepo(fn.Parent().Pkg.Pkg.Path())
	}
	if fn.Synthetic == "package initializer" && fn.Pkg != nil && !e.ld.initPkg(fn.Pkg) {
		out.intr = nop
		return out
	}
	if in := lookupIntrinsic(out.name, fn); in != nil {
		out.intr = in
		return out
	}
	if r := e.ld.redirect(out.name); r != nil {
		c := e.getFn(r)
		e.fns[fn] = c
		return c
	}
	e.ld.build(fn)
	if len(fn.Blocks) == 0 {
		return out
	}
	c := &compiler{e: e, fn: fn, out: out, regs: map[ssa.Value]int{}}
	n := 0
	for _, p := range fn.Params {
		c.regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		c.regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
		}
	}
	out.nregs = n
	for _, b := range fn.Blocks {
		blk := &Blk{}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				ph := phiInfo{dst: c.regs[x]}
				for _, ed := range x.Edges {
					ph.edges = append(ph.edges, c.op(ed))
				}
				blk.phis = append(blk.phis, ph)
				continue
			}
			blk.code = append(blk.code, c.instr(in))
			blk.src = append(blk.src, in)
		}
		out.blocks = append(out.blocks, blk)
	}
	return out
}

func (c *compiler) op(v ssa.Value) opnd {
	if v == nil {
		return opnd{r: -1}
	}
	if r, ok := c.regs[v]; ok {
		return opnd{r: r}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{r: -1, c: c.e.constVal(x)}
	case *ssa.Global:
		return opnd{r: -1, c: Value{p: c.e.global(x)}}
	case *ssa.Function:
		return opnd{r: -1, c: Value{p: &Closure{fn: x}}}
	case *ssa.Builtin:
		return opnd{r: -1, c: Value{p: &Closure{bi: x}}}
	}
	panic(unsupported{fmt.Sprintf("operand %T", v)})
}

func (e *Engine) constVal(x *ssa.Const) Value {
	t := x.Type().Underlying()
	if x.Value == nil {
		return Value{}
	}
	if w, _, ok := intInfo(t); ok {
		if i, exact := constant.Int64Val(constant.ToInt(x.Value)); exact {
			return Value{n: uint64(i) & mask(w)}
		}
		u, _ := constant.Uint64Val(constant.ToInt(x.Value))
		return Value{n: u & mask(w)}
	}
	if isBool(t) {
		return boolV(constant.BoolVal(x.Value))
	}
	if isString(t) {
		if x.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(x.Value)
			return strV(string(rune(i)))
		}
		return strV(constant.StringVal(x.Value))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(x.Value)
		return Value{n: math.Float64bits(f)}
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return Value{}
	}
	if _, ok := t.(*types.TypeParam); ok {
		return Value{}
	}
	return Value{p: &badConst{x.String()}}
}

type badConst struct{ s string }

func (e *Engine) global(g *ssa.Global) *Obj {
	if o, ok := e.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	o := e.newObj(e.slots(t), 1)
	o.name = g.String()
	if g.Pkg != nil && !e.ld.initPkg(g.Pkg) {
		o.uninit = true
	}
	if o.name == "sync.expunged" { // new(any)
		o.uninit = false
		e.set(o, 0, Value{p: e.newObj(1, 1)})
	}
	e.globals[g] = o
	return o
}

func setReg(f *Frame, r int, v Value) { f.regs[r] = v }

func (e *Engine) nilDeref() {
	panic(e.rtPanic("invalid memory address or nil pointer dereference"))
}

func (e *Engine) rtPanic(msg string) goPanic {
	return goPanic{val: e.rtErrVal("runtime error: " + msg), msg: "runtime error: " + msg, rt: true}
}

// rtErrVal is an interface value holding a runtime error (modelled as an
// error with the same text).
func (e *Engine) rtErrVal(msg string) Value {
	if t := e.ld.errType; t != nil {
		o := e.newObj(1, 1)
		e.set(o, 0, strV(msg))
		return Value{p: &Iface{t: t, v: Value{p: o}}}
	}
	return Value{p: &Iface{t: types.Typ[types.String], v: strV(msg)}}
}

// deref resolves a pointer value to object and offset.
func (e *Engine) ptr(v Value) (*Obj, int) {
	switch p := v.p.(type) {
	case *Obj:
		if p.uninit {
			e.unsup("global %s of an uninitialized package", p.name)
		}
		return p, int(v.n)
	case nil:
		if v.n == 0 {
			e.nilDeref()
		}
	case *SymPtr:
		i := e.concretize(p.idx, "pointer index")
		return p.obj, p.base + int(i)*p.step + p.add
	}
	e.unsup("pointer %T", v.p)
	return nil, 0
}

func (e *Engine) load(v Value, t types.Type) Value {
	if sp, ok := v.p.(*SymPtr); ok && !isAgg(t) && sp.cnt <= 512 {
		if w, _, ok := intInfo(t); ok || isBool(t) {
			if isBool(t) {
				w = 0
			}
			return e.symLoad(sp, w)
		}
	}
	o, off := e.ptr(v)
	return e.loadT(o, off, t)
}

func (e *Engine) symLoad(sp *SymPtr, w uint8) Value {
	vals := make([]Value, sp.cnt)
	for i := range vals {
		vals[i] = sp.obj.get(sp.base + i*sp.step + sp.add)
	}
	// ite chain over distinct runs
	res := e.termW(vals[sp.cnt-1], w)
	for i := sp.cnt - 2; i >= 0; i-- {
		t := e.termW(vals[i], w)
		if t == res {
			continue
		}
		// idx <= i for runs
		res = e.tt.Ite(e.tt.Ule(sp.idx, e.tt.Const(uint64(i), 64)), t, res)
	}
	return fromTerm(res)
}

func (e *Engine) termW(v Value, w uint8) *Term {
	if w == 0 {
		return e.boolTerm(v)
	}
	return e.term(v, w)
}

func (e *Engine) store(p Value, t types.Type, v Value) {
	if sp, ok := p.p.(*SymPtr); ok && !isAgg(t) && sp.cnt <= 512 {
		w, _, ok := intInfo(t)
		if ok || isBool(t) {
			if isBool(t) {
				w = 0
			}
			nv := e.termW(v, w)
			for i := 0; i < sp.cnt; i++ {
				off := sp.base + i*sp.step + sp.add
				old := e.termW(sp.obj.get(off), w)
				e.set(sp.obj, off, fromTerm(e.tt.Ite(e.tt.Eq(sp.idx, e.tt.Const(uint64(i), 64)), nv, old)))
			}
			return
		}
	}
	o, off := e.ptr(p)
	e.storeT(o, off, t, v)
}

// index checks i against n and returns either a concrete index or a term.
func (e *Engine) index(i Value, it types.Type, n int) (int, *Term) {
	w, signed, _ := intInfo(it)
	if w == 0 {
		w, signed = 64, true
	}
	if t, ok := i.p.(*Term); ok {
		var t64 *Term
		if signed {
			t64 = e.tt.Sext(t, 64)
		} else {
			t64 = e.tt.Zext(t, 64)
		}
		if !e.decide(e.tt.Ult(t64, e.tt.Const(uint64(n), 64))) {
			panic(e.rtPanic(fmt.Sprintf("index out of range [sym] with length %d", n)))
		}
		if n == 1 {
			return 0, nil
		}
		if b, ok := e.uniqueVal(t64); ok {
			return int(b), nil
		}
		return 0, t64
	}
	var x int64
	if signed {
		x = sext(i.n, w)
	} else {
		x = int64(i.n)
	}
	if x < 0 || x >= int64(n) {
		panic(e.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", x, n)))
	}
	return int(x), nil
}

func (e *Engine) uniqueVal(t *Term) (uint64, bool) {
	v, ok := e.eqVal[t]
	return v, ok
}

func (c *compiler) dst(in ssa.Instruction) int { return c.regs[in.(ssa.Value)] }

func (c *compiler) instr(in ssa.Instruction) instrFn {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				panic(unsupported{u.msg + " in " + c.fn.String()})
			}
			panic(r)
		}
	}()
	switch x := in.(type) {
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Alloc:
		d := c.regs[x]
		n := c.e.slots(x.Type().Underlying().(*types.Pointer).Elem())
		return func(e *Engine, g *G, f *Frame) ctl {
			f.regs[d] = Value{p: e.newObj(n, 1)}
			return cNext
		}
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		t := x.Val.Type()
		agg := isAgg(t)
		return func(e *Engine, g *G, f *Frame) ctl {
			p := a.get(f)
			if o, ok := p.p.(*Obj); ok && !agg && !o.uninit {
				e.set(o, int(p.n), v.get(f))
				return cNext
			}
			if o, ok := p.p.(*Obj); ok && o.uninit {
				e.storeT(o, int(p.n), t, v.get(f))
				return cNext
			}
			e.store(p, t, v.get(f))
			return cNext
		}
	case *ssa.FieldAddr:
		d, a := c.regs[x], c.op(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := c.e.fieldOff(st, x.Field)
		return func(e *Engine, g *G, f *Frame) ctl {
			p := a.get(f)
			switch o := p.p.(type) {
			case *Obj:
				f.regs[d] = Value{n: p.n + uint64(off), p: o}
			case *SymPtr:
				q := *o
				q.add += off
				f.regs[d] = Value{p: &q}
			default:
				e.nilDeref()
			}
			return cNext
		}
	case *ssa.Field:
		d, a := c.regs[x], c.op(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		off := c.e.fieldOff(st, x.Field)
		n := c.e.slots(x.Type())
		agg := isAgg(x.Type())
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			if v.p == nil {
				f.regs[d] = Value{}
				return cNext
			}
			vs := v.p.(*Agg).v
			if agg {
				f.regs[d] = Value{p: &Agg{vs[off : off+n : off+n]}}
			} else {
				f.regs[d] = vs[off]
			}
			return cNext
		}
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Index:
		return c.indexVal(x)
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.MakeSlice:
		d, l, cp := c.regs[x], c.op(x.Len), c.op(x.Cap)
		es := c.e.slots(x.Type().Underlying().(*types.Slice).Elem())
		return func(e *Engine, g *G, f *Frame) ctl {
			n := e.concInt(l.get(f), "make length")
			m := e.concInt(cp.get(f), "make capacity")
			if n < 0 || n > 1<<34 {
				panic(e.rtPanic("makeslice: len out of range"))
			}
			if m < n {
				panic(e.rtPanic("makeslice: cap out of range"))
			}
			f.regs[d] = Value{p: &Slice{obj: e.newObj(m*es, es), len: n, cap: m, es: es}}
			return cNext
		}
	case *ssa.MakeMap:
		d := c.regs[x]
		return func(e *Engine, g *G, f *Frame) ctl {
			e.mapIDs++
			f.regs[d] = Value{p: &MapObj{idx: map[any]int{}, id: e.mapIDs}}
			return cNext
		}
	case *ssa.MakeChan:
		d, s := c.regs[x], c.op(x.Size)
		return func(e *Engine, g *G, f *Frame) ctl {
			e.chanID++
			f.regs[d] = Value{p: &ChanObj{cap: e.concInt(s.get(f), "chan size"), id: e.chanID}}
			return cNext
		}
	case *ssa.MakeInterface:
		d, a := c.regs[x], c.op(x.X)
		t := x.X.Type()
		return func(e *Engine, g *G, f *Frame) ctl {
			f.regs[d] = Value{p: &Iface{t: t, v: a.get(f)}}
			return cNext
		}
	case *ssa.MakeClosure:
		d := c.regs[x]
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(e *Engine, g *G, f *Frame) ctl {
			cl := &Closure{fn: fn, binds: make([]Value, len(bs))}
			for i, b := range bs {
				cl.binds[i] = b.get(f)
			}
			f.regs[d] = Value{p: cl}
			return cNext
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		d := c.dst(in)
		var a opnd
		if y, ok := x.(*ssa.ChangeType); ok {
			a = c.op(y.X)
		} else {
			a = c.op(x.(*ssa.ChangeInterface).X)
		}
		return func(e *Engine, g *G, f *Frame) ctl {
			f.regs[d] = a.get(f)
			return cNext
		}
	case *ssa.Convert:
		return c.convert(x.X, x.Type(), c.regs[x])
	case *ssa.MultiConvert:
		return c.convert(x.X, x.Type(), c.regs[x])
	case *ssa.SliceToArrayPointer:
		d, a := c.regs[x], c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			s := getSlice(v)
			if s.len < n {
				panic(e.rtPanic("cannot convert slice to array pointer: length too short"))
			}
			if v.p == nil {
				f.regs[d] = Value{}
			} else {
				f.regs[d] = Value{n: uint64(s.off), p: s.obj}
			}
			return cNext
		}
	case *ssa.Extract:
		d, a, i := c.regs[x], c.op(x.Tuple), x.Index
		return func(e *Engine, g *G, f *Frame) ctl {
			f.regs[d] = a.get(f).p.(*Tuple).v[i]
			return cNext
		}
	case *ssa.Jump:
		to := x.Block().Succs[0].Index
		return func(e *Engine, g *G, f *Frame) ctl {
			e.jump(f, to)
			return cJump
		}
	case *ssa.If:
		a := c.op(x.Cond)
		t, el := x.Block().Succs[0].Index, x.Block().Succs[1].Index
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			b := v.n != 0
			if tm, ok := v.p.(*Term); ok {
				b = e.decide(tm)
			}
			if b {
				e.jump(f, t)
			} else {
				e.jump(f, el)
			}
			return cJump
		}
	case *ssa.Return:
		var rs []opnd
		for _, r := range x.Results {
			rs = append(rs, c.op(r))
		}
		return func(e *Engine, g *G, f *Frame) ctl {
			var v Value
			switch len(rs) {
			case 0:
			case 1:
				v = rs[0].get(f)
			default:
				t := &Tuple{make([]Value, len(rs))}
				for i, r := range rs {
					t.v[i] = r.get(f)
				}
				v = Value{p: t}
			}
			return e.doReturn(g, f, v)
		}
	case *ssa.Panic:
		a := c.op(x.X)
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			panic(goPanic{val: v, msg: e.panicText(v)})
		}
	case *ssa.Call:
		return c.call(&x.Call, c.regs[x])
	case *ssa.Go:
		mk := c.callPrep(&x.Call)
		return func(e *Engine, g *G, f *Frame) ctl {
			cl, args := mk(e, f)
			e.spawn(cl, args)
			e.schedPoint()
			return cNext
		}
	case *ssa.Defer:
		mk := c.callPrep(&x.Call)
		return func(e *Engine, g *G, f *Frame) ctl {
			cl, args := mk(e, f)
			f.defers = append(f.defers, deferred{cl: cl, args: args})
			return cNext
		}
	case *ssa.RunDefers:
		return func(e *Engine, g *G, f *Frame) ctl {
			n := len(f.defers)
			if n == 0 {
				return cNext
			}
			dd := f.defers[n-1]
			f.defers = f.defers[:n-1]
			c := e.enter(g, dd.cl, dd.args, -1, true)
			if c == cNext { // intrinsic finished: stay on this instruction
				return cJump
			}
			return c
		}
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(e *Engine, g *G, f *Frame) ctl {
			mo, _ := m.get(f).p.(*MapObj)
			if mo == nil {
				panic(goPanic{val: e.rtErrVal("assignment to entry in nil map"), msg: "assignment to entry in nil map", rt: true})
			}
			e.mapSet(mo, k.get(f), v.get(f))
			return cNext
		}
	case *ssa.Range:
		d, a := c.regs[x], c.op(x.X)
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			switch y := v.p.(type) {
			case *MapObj:
				f.regs[d] = Value{p: &RangeIter{m: y, ents: append([]*MapEntry(nil), y.ents...)}}
			case *Str:
				f.regs[d] = Value{p: &RangeIter{str: y}}
			case nil:
				f.regs[d] = Value{p: &RangeIter{}}
			}
			return cNext
		}
	case *ssa.Next:
		return c.next(x)
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(e *Engine, g *G, f *Frame) ctl { return e.chanSend(g, ch.get(f), v.get(f)) }
	case *ssa.Select:
		return c.selectInstr(x)
	}
	s := fmt.Sprintf("%T in %s", in, c.fn)
	return func(e *Engine, g *G, f *Frame) ctl { e.unsup("%s", s); return cNext }
}

func (e *Engine) jump(f *Frame, to int) {
	f.prev = f.blk
	f.blk = to
	f.pc = 0
	blk := f.fn.blocks[to]
	if len(blk.phis) > 0 {
		// find the edge index
		preds := f.fn.fn.Blocks[to].Preds
		ei := -1
		for i, p := range preds {
			if p.Index == f.prev {
				ei = i
				break
			}
		}
		if len(blk.phis) == 1 {
			f.regs[blk.phis[0].dst] = blk.phis[0].edges[ei].get(f)
		} else {
			var buf [16]Value
			tmp := buf[:0]
			for i := range blk.phis {
				tmp = append(tmp, blk.phis[i].edges[ei].get(f))
			}
			for i := range blk.phis {
				f.regs[blk.phis[i].dst] = tmp[i]
			}
		}
	}
}

func (e *Engine) panicText(v Value) string {
	i, ok := v.p.(*Iface)
	if !ok {
		return "nil"
	}
	if isString(i.t) {
		s := getStr(i.v)
		if s.sym != nil {
			return "<symbolic string>"
		}
		return s.s
	}
	if o, ok := i.v.p.(*Obj); ok && o.n >= 1 {
		if s, ok := o.get(0).p.(*Str); ok && s.sym == nil {
			return s.s
		}
	}
	return fmt.Sprintf("value of type %s", i.t)
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) instrFn {
	d, a, i := c.regs[x], c.op(x.X), c.op(x.Index)
	it := x.Index.Type()
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		return func(e *Engine, g *G, f *Frame) ctl {
			s := getSlice(a.get(f))
			iv := i.get(f)
			if iv.p == nil && iv.n < uint64(s.len) {
				f.regs[d] = Value{n: uint64(s.off + int(iv.n)*s.es), p: s.obj}
				return cNext
			}
			k, t := e.index(iv, it, s.len)
			if t != nil {
				f.regs[d] = Value{p: &SymPtr{obj: s.obj, base: s.off, idx: t, step: s.es, cnt: s.len}}
			} else {
				f.regs[d] = Value{n: uint64(s.off + k*s.es), p: s.obj}
			}
			return cNext
		}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n, es := int(at.Len()), c.e.slots(at.Elem())
		return func(e *Engine, g *G, f *Frame) ctl {
			p := a.get(f)
			iv := i.get(f)
			var o *Obj
			var off int
			if q, ok := p.p.(*Obj); ok {
				o, off = q, int(p.n)
			} else if sp, ok := p.p.(*SymPtr); ok {
				k, t := e.index(iv, it, n)
				if t == nil {
					q := *sp
					q.add += k * es
					f.regs[d] = Value{p: &q}
					return cNext
				}
				o, off = e.ptr(p)
			} else {
				o, off = e.ptr(p)
			}
			k, t := e.index(iv, it, n)
			if t != nil {
				f.regs[d] = Value{p: &SymPtr{obj: o, base: off, idx: t, step: es, cnt: n}}
			} else {
				f.regs[d] = Value{n: uint64(off + k*es), p: o}
			}
			return cNext
		}
	}
	panic(unsupported{"IndexAddr " + x.X.Type().String()})
}

func (c *compiler) indexVal(x *ssa.Index) instrFn {
	d, a, i := c.regs[x], c.op(x.X), c.op(x.Index)
	it := x.Index.Type()
	w, _, isInt := intInfo(x.Type())
	if isString(x.X.Type()) {
		return func(e *Engine, g *G, f *Frame) ctl {
			s := getStr(a.get(f))
			k, t := e.index(i.get(f), it, s.Len())
			if t != nil {
				f.regs[d] = e.selectVals(s.bytes(), t, 8)
			} else {
				f.regs[d] = s.at(k)
			}
			return cNext
		}
	}
	at, ok := x.X.Type().Underlying().(*types.Array)
	if !ok {
		panic(unsupported{"Index " + x.X.Type().String()})
	}
	n, es := int(at.Len()), c.e.slots(at.Elem())
	agg := isAgg(at.Elem())
	return func(e *Engine, g *G, f *Frame) ctl {
		vs := aggSlots(a.get(f), n*es)
		k, t := e.index(i.get(f), it, n)
		if t != nil {
			if isInt && !agg {
				f.regs[d] = e.selectVals(vs, t, w)
				return cNext
			}
			k = int(e.concretize(t, "array index"))
		}
		if agg {
			f.regs[d] = Value{p: &Agg{vs[k*es : (k+1)*es : (k+1)*es]}}
		} else {
			f.regs[d] = vs[k]
		}
		return cNext
	}
}

func (e *Engine) selectVals(vs []Value, idx *Term, w uint8) Value {
	res := e.term(vs[len(vs)-1], w)
	for i := len(vs) - 2; i >= 0; i-- {
		t := e.term(vs[i], w)
		if t == res {
			continue
		}
		res = e.tt.Ite(e.tt.Ule(idx, e.tt.Const(uint64(i), 64)), t, res)
	}
	return fromTerm(res)
}

func (c *compiler) slice(x *ssa.Slice) instrFn {
	d, a := c.regs[x], c.op(x.X)
	lo, hi, mx := c.op(x.Low), c.op(x.High), c.op(x.Max)
	hasLo, hasHi, hasMax := x.Low != nil, x.High != nil, x.Max != nil
	bound := func(e *Engine, f *Frame, o opnd, has bool, def int) int {
		if !has {
			return def
		}
		return e.concInt(o.get(f), "slice bound")
	}
	// symbolic bounds: check range first so that only in-range values are enumerated
	guard := func(e *Engine, f *Frame, o opnd, has bool, max int) {
		if !has {
			return
		}
		if t, ok := o.get(f).p.(*Term); ok {
			if !e.decide(e.tt.Ule(e.tt.Zext(t, 64), e.tt.Const(uint64(max), 64))) {
				panic(e.rtPanic("slice bounds out of range"))
			}
		}
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice, *types.Pointer:
		es, arrN := 0, -1
		if p, ok := u.(*types.Pointer); ok {
			at := p.Elem().Underlying().(*types.Array)
			es, arrN = c.e.slots(at.Elem()), int(at.Len())
		} else {
			es = c.e.slots(u.(*types.Slice).Elem())
		}
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			var s *Slice
			if arrN >= 0 {
				o, off := e.ptr(v)
				s = &Slice{obj: o, off: off, len: arrN, cap: arrN, es: es}
			} else {
				s = getSlice(v)
			}
			guard(e, f, hi, hasHi, s.cap)
			guard(e, f, lo, hasLo, s.cap)
			h := bound(e, f, hi, hasHi, s.len)
			l := bound(e, f, lo, hasLo, 0)
			m := bound(e, f, mx, hasMax, s.cap)
			if l < 0 || h < l || m < h || m > s.cap {
				panic(e.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, s.cap)))
			}
			if v.p == nil {
				f.regs[d] = Value{}
				return cNext
			}
			f.regs[d] = Value{p: &Slice{obj: s.obj, off: s.off + l*es, len: h - l, cap: m - l, es: es}}
			return cNext
		}
	case *types.Basic:
		return func(e *Engine, g *G, f *Frame) ctl {
			s := getStr(a.get(f))
			guard(e, f, hi, hasHi, s.Len())
			guard(e, f, lo, hasLo, s.Len())
			h := bound(e, f, hi, hasHi, s.Len())
			l := bound(e, f, lo, hasLo, 0)
			if l < 0 || h < l || h > s.Len() {
				panic(e.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, s.Len())))
			}
			if s.sym != nil {
				f.regs[d] = bytesToStr(s.sym[l:h])
			} else {
				f.regs[d] = strV(s.s[l:h])
			}
			return cNext
		}
	}
	panic(unsupported{"Slice " + x.X.Type().String()})
}

// ---- operators

func (c *compiler) unop(x *ssa.UnOp) instrFn {
	d, a := c.regs[x], c.op(x.X)
	switch x.Op {
	case token.MUL:
		t := x.Type()
		if isAgg(t) {
			n := c.e.slots(t)
			return func(e *Engine, g *G, f *Frame) ctl {
				o, off := e.ptr(a.get(f))
				f.regs[d] = Value{p: &Agg{e.getN(o, off, n)}}
				return cNext
			}
		}
		return func(e *Engine, g *G, f *Frame) ctl {
			p := a.get(f)
			if o, ok := p.p.(*Obj); ok && !o.uninit {
				f.regs[d] = o.get(int(p.n))
				return cNext
			}
			f.regs[d] = e.load(p, t)
			return cNext
		}
	case token.NOT:
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			if t, ok := v.p.(*Term); ok {
				f.regs[d] = fromTerm(e.tt.Not(t))
			} else {
				f.regs[d] = boolV(v.n == 0)
			}
			return cNext
		}
	case token.SUB:
		if isFloat(x.Type()) {
			return func(e *Engine, g *G, f *Frame) ctl {
				f.regs[d] = Value{n: math.Float64bits(-math.Float64frombits(a.get(f).n))}
				return cNext
			}
		}
		w, _, _ := intInfo(x.Type())
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			if t, ok := v.p.(*Term); ok {
				f.regs[d] = fromTerm(e.tt.Neg(t))
			} else {
				f.regs[d] = Value{n: -v.n & mask(w)}
			}
			return cNext
		}
	case token.XOR:
		w, _, _ := intInfo(x.Type())
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			if t, ok := v.p.(*Term); ok {
				f.regs[d] = fromTerm(e.tt.BNot(t))
			} else {
				f.regs[d] = Value{n: ^v.n & mask(w)}
			}
			return cNext
		}
	case token.ARROW:
		return func(e *Engine, g *G, f *Frame) ctl { return e.chanRecv(g, f, a.get(f), d, x.CommaOk) }
	}
	panic(unsupported{"UnOp " + x.Op.String()})
}

func (c *compiler) binop(x *ssa.BinOp) instrFn {
	d, a, b := c.regs[x], c.op(x.X), c.op(x.Y)
	t := x.X.Type()
	if w, signed, ok := intInfo(t); ok {
		return c.intBinop(x.Op, d, a, b, w, signed, x.Y.Type())
	}
	switch {
	case isFloat(t):
		op := x.Op
		is32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		return func(e *Engine, g *G, f *Frame) ctl {
			av, bv := a.get(f), b.get(f)
			if av.p != nil || bv.p != nil {
				e.unsup("symbolic float")
			}
			p, q := math.Float64frombits(av.n), math.Float64frombits(bv.n)
			var r float64
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			case token.EQL:
				f.regs[d] = boolV(p == q)
				return cNext
			case token.NEQ:
				f.regs[d] = boolV(p != q)
				return cNext
			case token.LSS:
				f.regs[d] = boolV(p < q)
				return cNext
			case token.LEQ:
				f.regs[d] = boolV(p <= q)
				return cNext
			case token.GTR:
				f.regs[d] = boolV(p > q)
				return cNext
			case token.GEQ:
				f.regs[d] = boolV(p >= q)
				return cNext
			}
			if is32 {
				r = float64(float32(r))
			}
			f.regs[d] = Value{n: math.Float64bits(r)}
			return cNext
		}
	case isString(t):
		op := x.Op
		return func(e *Engine, g *G, f *Frame) ctl {
			f.regs[d] = e.strOp(op, getStr(a.get(f)), getStr(b.get(f)))
			return cNext
		}
	}
	// == and != on everything else
	neg := x.Op == token.NEQ
	if x.Op != token.EQL && !neg {
		if isBool(t) {
			op := x.Op
			return func(e *Engine, g *G, f *Frame) ctl {
				p, q := e.boolTerm(a.get(f)), e.boolTerm(b.get(f))
				switch op {
				case token.AND:
					f.regs[d] = fromTerm(e.tt.And(p, q))
				case token.OR:
					f.regs[d] = fromTerm(e.tt.Or(p, q))
				}
				return cNext
			}
		}
		panic(unsupported{"BinOp " + x.Op.String() + " on " + t.String()})
	}
	// comparison of interface and concrete type
	_, xi := t.Underlying().(*types.Interface)
	_, yi := x.Y.Type().Underlying().(*types.Interface)
	yt := x.Y.Type()
	n := 1
	if isAgg(t) {
		n = c.e.slots(t)
	}
	return func(e *Engine, g *G, f *Frame) ctl {
		av, bv := a.get(f), b.get(f)
		if xi && !yi {
			bv = Value{p: &Iface{t: yt, v: bv}}
		} else if yi && !xi {
			av = Value{p: &Iface{t: t, v: av}}
		}
		var r *Term
		if n != 1 || isAgg(t) {
			r = e.slotsEq(aggSlots(av, n), aggSlots(bv, n))
		} else {
			r = e.valEq(av, bv)
		}
		if neg {
			r = e.tt.Not(r)
		}
		f.regs[d] = fromTerm(r)
		return cNext
	}
}

func (e *Engine) slotsEq(a, b []Value) *Term {
	bytesLike := true
	for i := range a {
		for _, v := range [2]Value{a[i], b[i]} {
			if t, ok := v.p.(*Term); ok {
				if t.w != 8 {
					bytesLike = false
				}
			} else if v.p != nil || v.n > 255 {
				bytesLike = false
			}
		}
	}
	if bytesLike {
		return e.tt.bytesEq(a, b)
	}
	r := e.tt.T
	for i := range a {
		r = e.tt.And(r, e.valEq(a[i], b[i]))
		if r == e.tt.F {
			break
		}
	}
	return r
}

// valEq compares two slot values dynamically.
func (e *Engine) valEq(a, b Value) *Term {
	if ta, ok := a.p.(*Term); ok {
		if ta.w == 0 {
			return e.tt.Eq(ta, e.boolTerm(b))
		}
		return e.tt.Eq(ta, e.term(b, ta.w))
	}
	if tb, ok := b.p.(*Term); ok {
		if tb.w == 0 {
			return e.tt.Eq(tb, e.boolTerm(a))
		}
		return e.tt.Eq(tb, e.term(a, tb.w))
	}
	if a.p == nil && b.p == nil {
		return e.tt.Bool(a.n == b.n)
	}
	switch x := a.p.(type) {
	case *Str:
		if b.p == nil {
			return e.tt.Bool(x.Len() == 0)
		}
		y, ok := b.p.(*Str)
		if !ok {
			return e.tt.F
		}
		return e.strEq(x, y)
	case *Iface:
		y, ok := b.p.(*Iface)
		if !ok {
			return e.tt.F
		}
		if !types.Identical(x.t, y.t) {
			return e.tt.F
		}
		switch x.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			panic(e.rtPanic("comparing uncomparable type " + x.t.String()))
		}
		if isAgg(x.t) {
			n := e.slots(x.t)
			return e.slotsEq(aggSlots(x.v, n), aggSlots(y.v, n))
		}
		return e.valEq(x.v, y.v)
	case *Obj:
		y, ok := b.p.(*Obj)
		return e.tt.Bool(ok && x == y && a.n == b.n)
	case *Agg:
		n := len(x.v)
		return e.slotsEq(x.v, aggSlots(b, n))
	}
	if y, ok := b.p.(*Agg); ok {
		return e.slotsEq(aggSlots(a, len(y.v)), y.v)
	}
	if y, ok := b.p.(*Str); ok && a.p == nil {
		return e.tt.Bool(y.Len() == 0)
	}
	switch a.p.(type) {
	case *Slice, *MapObj, *ChanObj, *Closure, nil:
		return e.tt.Bool(a.p == b.p)
	}
	if sp, ok := a.p.(*SymPtr); ok {
		_ = sp
		return e.tt.Bool(false)
	}
	e.unsup("comparison of %T and %T", a.p, b.p)
	return nil
}

func (e *Engine) strEq(x, y *Str) *Term {
	if x.Len() != y.Len() {
		return e.tt.F
	}
	if x.sym == nil && y.sym == nil {
		return e.tt.Bool(x.s == y.s)
	}
	return e.tt.bytesEq(x.bytes(), y.bytes())
}

func (e *Engine) strOp(op token.Token, x, y *Str) Value {
	conc := x.sym == nil && y.sym == nil
	switch op {
	case token.ADD:
		if conc {
			return strV(x.s + y.s)
		}
		return bytesToStr(append(append([]Value(nil), x.bytes()...), y.bytes()...))
	case token.EQL:
		return fromTerm(e.strEq(x, y))
	case token.NEQ:
		return fromTerm(e.tt.Not(e.strEq(x, y)))
	case token.LSS:
		if conc {
			return boolV(x.s < y.s)
		}
		return fromTerm(e.tt.bytesLess(x.bytes(), y.bytes()))
	case token.GTR:
		if conc {
			return boolV(x.s > y.s)
		}
		return fromTerm(e.tt.bytesLess(y.bytes(), x.bytes()))
	case token.LEQ:
		if conc {
			return boolV(x.s <= y.s)
		}
		return fromTerm(e.tt.Not(e.tt.bytesLess(y.bytes(), x.bytes())))
	case token.GEQ:
		if conc {
			return boolV(x.s >= y.s)
		}
		return fromTerm(e.tt.Not(e.tt.bytesLess(x.bytes(), y.bytes())))
	}
	e.unsup("string op %s", op)
	return Value{}
}

func (c *compiler) intBinop(op token.Token, d int, a, b opnd, w uint8, signed bool, yt types.Type) instrFn {
	m := mask(w)
	simple := func(conc func(x, y uint64) uint64, sym func(tt *TermTab, x, y *Term) *Term) instrFn {
		return func(e *Engine, g *G, f *Frame) ctl {
			x, y := a.get(f), b.get(f)
			if x.p == nil && y.p == nil {
				f.regs[d] = Value{n: conc(x.n, y.n) & m}
			} else {
				f.regs[d] = fromTerm(sym(e.tt, e.term(x, w), e.term(y, w)))
			}
			return cNext
		}
	}
	cmp := func(conc func(x, y uint64) bool, sym func(tt *TermTab, x, y *Term) *Term) instrFn {
		return func(e *Engine, g *G, f *Frame) ctl {
			x, y := a.get(f), b.get(f)
			if x.p == nil && y.p == nil {
				f.regs[d] = boolV(conc(x.n, y.n))
			} else {
				f.regs[d] = fromTerm(sym(e.tt, e.term(x, w), e.term(y, w)))
			}
			return cNext
		}
	}
	switch op {
	case token.ADD:
		return simple(func(x, y uint64) uint64 { return x + y }, (*TermTab).Add)
	case token.SUB:
		return simple(func(x, y uint64) uint64 { return x - y }, (*TermTab).Sub)
	case token.MUL:
		return simple(func(x, y uint64) uint64 { return x * y }, (*TermTab).Mul)
	case token.AND:
		return simple(func(x, y uint64) uint64 { return x & y }, (*TermTab).BAnd)
	case token.OR:
		return simple(func(x, y uint64) uint64 { return x | y }, (*TermTab).BOr)
	case token.XOR:
		return simple(func(x, y uint64) uint64 { return x ^ y }, (*TermTab).BXor)
	case token.AND_NOT:
		return simple(func(x, y uint64) uint64 { return x &^ y }, func(tt *TermTab, x, y *Term) *Term { return tt.BAnd(x, tt.BNot(y)) })
	case token.EQL:
		return cmp(func(x, y uint64) bool { return x == y }, (*TermTab).Eq)
	case token.NEQ:
		return cmp(func(x, y uint64) bool { return x != y }, func(tt *TermTab, x, y *Term) *Term { return tt.Not(tt.Eq(x, y)) })
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
		}
		strict := op == token.LSS || op == token.GTR
		if signed {
			if strict {
				return cmp(func(x, y uint64) bool { return sext(x, w) < sext(y, w) }, (*TermTab).Slt)
			}
			return cmp(func(x, y uint64) bool { return sext(x, w) <= sext(y, w) }, (*TermTab).Sle)
		}
		if strict {
			return cmp(func(x, y uint64) bool { return x < y }, (*TermTab).Ult)
		}
		return cmp(func(x, y uint64) bool { return x <= y }, (*TermTab).Ule)
	case token.QUO, token.REM:
		quo := op == token.QUO
		return func(e *Engine, g *G, f *Frame) ctl {
			x, y := a.get(f), b.get(f)
			if y.p == nil {
				if y.n == 0 {
					panic(e.rtPanic("integer divide by zero"))
				}
			} else if e.decide(e.tt.Eq(y.p.(*Term), e.tt.Const(0, w))) {
				panic(e.rtPanic("integer divide by zero"))
			}
			if x.p == nil && y.p == nil {
				var r uint64
				if signed {
					p, q := sext(x.n, w), sext(y.n, w)
					if quo {
						r = uint64(sdiv64(p, q))
					} else {
						r = uint64(srem64(p, q))
					}
				} else if quo {
					r = x.n / y.n
				} else {
					r = x.n % y.n
				}
				f.regs[d] = Value{n: r & m}
				return cNext
			}
			p, q := e.term(x, w), e.term(y, w)
			var t *Term
			switch {
			case signed && quo:
				t = e.tt.SDiv(p, q)
			case signed:
				t = e.tt.SRem(p, q)
			case quo:
				t = e.tt.UDiv(p, q)
			default:
				t = e.tt.URem(p, q)
			}
			f.regs[d] = fromTerm(t)
			return cNext
		}
	case token.SHL, token.SHR:
		yw, ysigned, _ := intInfo(yt)
		if yw == 0 {
			yw = 64
		}
		left := op == token.SHL
		return func(e *Engine, g *G, f *Frame) ctl {
			x, y := a.get(f), b.get(f)
			if ysigned {
				neg := false
				if y.p == nil {
					neg = sext(y.n, yw) < 0
				} else {
					neg = e.decide(e.tt.Slt(y.p.(*Term), e.tt.Const(0, yw)))
				}
				if neg {
					panic(e.rtPanic("negative shift amount"))
				}
			}
			if x.p == nil && y.p == nil {
				s := y.n
				var r uint64
				switch {
				case left:
					if s < 64 {
						r = x.n << s
					}
				case signed:
					if s > 63 {
						s = 63
					}
					r = uint64(sext(x.n, w) >> s)
				default:
					if s < 64 {
						r = x.n >> s
					}
				}
				f.regs[d] = Value{n: r & m}
				return cNext
			}
			p := e.term(x, w)
			sy := e.term(y, yw)
			// bring the shift amount to width w, saturating
			var s *Term
			if yw > w {
				s = e.tt.Ite(e.tt.Ult(sy, e.tt.Const(uint64(w), yw)), e.tt.Extract(sy, w-1, 0), e.tt.Const(uint64(w), w))
			} else {
				s = e.tt.Zext(sy, w)
			}
			switch {
			case left:
				f.regs[d] = fromTerm(e.tt.Shl(p, s))
			case signed:
				f.regs[d] = fromTerm(e.tt.Ashr(p, s))
			default:
				f.regs[d] = fromTerm(e.tt.Lshr(p, s))
			}
			return cNext
		}
	}
	panic(unsupported{"int op " + op.String()})
}

func (c *compiler) convert(xv ssa.Value, to types.Type, d int) instrFn {
	a := c.op(xv)
	from := xv.Type()
	fw, fs, fi := intInfo(from)
	tw, ts, ti := intInfo(to)
	switch {
	case fi && ti:
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			if t, ok := v.p.(*Term); ok {
				switch {
				case tw < fw:
					t = e.tt.Extract(t, tw-1, 0)
				case tw > fw && fs:
					t = e.tt.Sext(t, tw)
				case tw > fw:
					t = e.tt.Zext(t, tw)
				}
				f.regs[d] = fromTerm(t)
			} else if fs {
				f.regs[d] = Value{n: uint64(sext(v.n, fw)) & mask(tw), p: v.p}
			} else {
				f.regs[d] = Value{n: v.n & mask(tw), p: v.p}
			}
			return cNext
		}
	case fi && isFloat(to):
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			if v.p != nil {
				e.unsup("symbolic int to float")
			}
			var r float64
			if fs {
				r = float64(sext(v.n, fw))
			} else {
				r = float64(v.n)
			}
			f.regs[d] = Value{n: math.Float64bits(r)}
			return cNext
		}
	case isFloat(from) && ti:
		return func(e *Engine, g *G, f *Frame) ctl {
			r := math.Float64frombits(a.get(f).n)
			if ts {
				f.regs[d] = Value{n: uint64(int64(r)) & mask(tw)}
			} else {
				f.regs[d] = Value{n: uint64(r) & mask(tw)}
			}
			return cNext
		}
	case isFloat(from) && isFloat(to):
		is32 := to.Underlying().(*types.Basic).Kind() == types.Float32
		return func(e *Engine, g *G, f *Frame) ctl {
			v := a.get(f)
			if is32 {
				v.n = math.Float64bits(float64(float32(math.Float64frombits(v.n))))
			}
			f.regs[d] = v
			return cNext
		}
	case isString(to):
		if fi {
			return func(e *Engine, g *G, f *Frame) ctl {
				v := a.get(f)
				if v.p != nil {
					e.unsup("symbolic rune to string")
				}
				f.regs[d] = strV(string(rune(sext(v.n, fw))))
				return cNext
			}
		}
		if s, ok := from.Underlying().(*types.Slice); ok {
			if w, _, _ := intInfo(s.Elem()); w == 8 {
				return func(e *Engine, g *G, f *Frame) ctl {
					f.regs[d] = bytesToStr(e.bytesOf(a.get(f)))
					return cNext
				}
			}
		}
		if isString(from) {
			return func(e *Engine, g *G, f *Frame) ctl { f.regs[d] = a.get(f); return cNext }
		}
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			if w, _, _ := intInfo(s.Elem()); w == 8 {
				return func(e *Engine, g *G, f *Frame) ctl {
					f.regs[d] = e.mkBytes(getStr(a.get(f)).bytes())
					return cNext
				}
			}
			return func(e *Engine, g *G, f *Frame) ctl {
				st := getStr(a.get(f))
				if st.sym != nil {
					e.unsup("symbolic string to runes")
				}
				rs := []rune(st.s)
				o := e.newObj(len(rs), 1)
				for i, r := range rs {
					e.set(o, i, Value{n: uint64(uint32(r))})
				}
				f.regs[d] = Value{p: &Slice{obj: o, len: len(rs), cap: len(rs), es: 1}}
				return cNext
			}
		}
	}
	// pointers, unsafe.Pointer, uintptr: keep the value
	return func(e *Engine, g *G, f *Frame) ctl {
		f.regs[d] = a.get(f)
		return cNext
	}
}

// ---- maps

// mapKey returns a Go-comparable key for a fully concrete key value.
func (e *Engine) mapKey(v Value) (any, bool) {
	switch x := v.p.(type) {
	case nil:
		return v.n, true
	case *Term:
		return nil, false
	case *Str:
		if x.sym != nil {
			return nil, false
		}
		if x.s == "" {
			return uint64(0), true
		}
		return x.s, true
	case *Obj:
		return struct {
			o *Obj
			n uint64
		}{x, v.n}, true
	case *Agg:
		var sb strings.Builder
		for _, y := range x.v {
			k, ok := e.mapKey(y)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return "agg" + sb.String(), true
	case *Iface:
		k, ok := e.mapKey(x.v)
		if !ok {
			return nil, false
		}
		return struct {
			t string
			k any
		}{x.t.String(), k}, true
	}
	return v.p, true
}

func (e *Engine) mapFind(m *MapObj, k Value) *MapEntry {
	ck, conc := e.mapKey(k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return m.ents[i]
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, en := range m.ents {
		if en.dead {
			continue
		}
		if conc {
			if _, c2 := e.mapKey(en.k); c2 {
				continue
			}
		}
		if e.decide(e.valEq(en.k, k)) {
			return en
		}
	}
	return nil
}

func (e *Engine) mapSet(m *MapObj, k, v Value) {
	en := e.mapFind(m, k)
	if en != nil {
		old := en.v
		e.addUndo(func() { en.v = old })
		en.v = v
		return
	}
	en = &MapEntry{k: k, v: v}
	ck, conc := e.mapKey(k)
	i := len(m.ents)
	m.ents = append(m.ents[:i:i], en)
	m.live++
	if conc {
		m.idx[ck] = i
	} else {
		m.nsym++
	}
	e.addUndo(func() {
		m.ents = m.ents[:i]
		m.live--
		if conc {
			delete(m.idx, ck)
		} else {
			m.nsym--
		}
	})
	if i > 64 && m.live*4 < i && len(e.choices) == 0 {
		e.mapCompact(m)
	}
}

func (e *Engine) mapCompact(m *MapObj) {
	var ents []*MapEntry
	m.idx = map[any]int{}
	for _, en := range m.ents {
		if en.dead {
			continue
		}
		if ck, ok := e.mapKey(en.k); ok {
			m.idx[ck] = len(ents)
		}
		ents = append(ents, en)
	}
	m.ents = ents
}

func (e *Engine) mapDelete(m *MapObj, k Value) {
	en := e.mapFind(m, k)
	if en == nil {
		return
	}
	ck, conc := e.mapKey(en.k)
	var i int
	if conc {
		i = m.idx[ck]
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	en.dead = true
	m.live--
	e.addUndo(func() {
		en.dead = false
		m.live++
		if conc {
			m.idx[ck] = i
		} else {
			m.nsym++
		}
	})
}

func (c *compiler) lookup(x *ssa.Lookup) instrFn {
	d, a, k := c.regs[x], c.op(x.X), c.op(x.Index)
	if isString(x.X.Type()) {
		it := x.Index.Type()
		return func(e *Engine, g *G, f *Frame) ctl {
			s := getStr(a.get(f))
			i, t := e.index(k.get(f), it, s.Len())
			if t != nil {
				f.regs[d] = e.selectVals(s.bytes(), t, 8)
			} else {
				f.regs[d] = s.at(i)
			}
			return cNext
		}
	}
	comma := x.CommaOk
	return func(e *Engine, g *G, f *Frame) ctl {
		mo, _ := a.get(f).p.(*MapObj)
		var en *MapEntry
		if mo != nil {
			en = e.mapFind(mo, k.get(f))
		}
		var v Value
		if en != nil {
			v = en.v
		}
		if comma {
			f.regs[d] = Value{p: &Tuple{[]Value{v, boolV(en != nil)}}}
		} else {
			f.regs[d] = v
		}
		return cNext
	}
}

func (c *compiler) next(x *ssa.Next) instrFn {
	d, a := c.regs[x], c.op(x.Iter)
	if x.IsString {
		return func(e *Engine, g *G, f *Frame) ctl {
			it := a.get(f).p.(*RangeIter)
			s := it.str
			if s == nil {
				s = &Str{}
			}
			if s.sym != nil {
				e.unsup("range over symbolic string")
			}
			if it.pos >= len(s.s) {
				f.regs[d] = Value{p: &Tuple{[]Value{{}, {}, {}}}}
				return cNext
			}
			pos := it.pos
			r, size := rune(0), 0
			for i, c := range s.s[pos:] {
				if i == 0 {
					r = c
				} else {
					size = i
					break
				}
			}
			if size == 0 {
				size = len(s.s) - pos
			}
			e.addUndo(func() { it.pos = pos })
			it.pos += size
			f.regs[d] = Value{p: &Tuple{[]Value{{n: 1}, {n: uint64(pos)}, {n: uint64(uint32(r))}}}}
			return cNext
		}
	}
	return func(e *Engine, g *G, f *Frame) ctl {
		it := a.get(f).p.(*RangeIter)
		for it.pos < len(it.ents) && it.ents[it.pos].dead {
			p := it.pos
			e.addUndo(func() { it.pos = p })
			it.pos++
		}
		if it.pos >= len(it.ents) {
			f.regs[d] = Value{p: &Tuple{[]Value{{}, {}, {}}}}
			return cNext
		}
		pos := it.pos
		j := pos
		if e.ps.mapPerm {
			// any remaining live entry may come next
			var cand []int
			for i := pos; i < len(it.ents); i++ {
				if !it.ents[i].dead {
					cand = append(cand, i)
				}
			}
			if len(cand) > 1 {
				j = cand[e.choose(len(cand), "maporder")]
			}
		}
		old := it.ents
		e.addUndo(func() { it.pos = pos; it.ents = old })
		if j != pos {
			n := append([]*MapEntry(nil), it.ents...)
			n[pos], n[j] = n[j], n[pos]
			it.ents = n
		}
		en := it.ents[pos]
		it.pos++
		f.regs[d] = Value{p: &Tuple{[]Value{{n: 1}, en.k, en.v}}}
		return cNext
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) instrFn {
	d, a := c.regs[x], c.op(x.X)
	to := x.AssertedType
	it, isI := to.Underlying().(*types.Interface)
	comma := x.CommaOk
	return func(e *Engine, g *G, f *Frame) ctl {
		v := a.get(f)
		i, _ := v.p.(*Iface)
		ok := false
		var r Value
		if i != nil {
			if isI {
				ok = types.Implements(i.t, it)
				r = v
			} else {
				ok = types.Identical(i.t, to)
				r = i.v
			}
		}
		if comma {
			if !ok {
				r = Value{}
			}
			f.regs[d] = Value{p: &Tuple{[]Value{r, boolV(ok)}}}
			return cNext
		}
		if !ok {
			panic(goPanic{val: e.rtErrVal("interface conversion"), msg: "interface conversion to " + to.String(), rt: true})
		}
		f.regs[d] = r
		return cNext
	}
}

// ---- calls

func (c *compiler) callPrep(cc *ssa.CallCommon) func(e *Engine, f *Frame) (*Closure, []Value) {
	var as []opnd
	for _, x := range cc.Args {
		as = append(as, c.op(x))
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(e *Engine, f *Frame) (*Closure, []Value) {
			v := recv.get(f)
			i, _ := v.p.(*Iface)
			if i == nil {
				e.nilDeref()
			}
			fn := e.findMethod(i.t, m)
			args := make([]Value, len(as)+1)
			args[0] = i.v
			for j, x := range as {
				args[j+1] = x.get(f)
			}
			return &Closure{fn: fn}, args
		}
	}
	fv := c.op(cc.Value)
	return func(e *Engine, f *Frame) (*Closure, []Value) {
		cl, _ := fv.get(f).p.(*Closure)
		if cl == nil {
			e.nilDeref()
		}
		args := make([]Value, len(as))
		for j, x := range as {
			args[j] = x.get(f)
		}
		return cl, args
	}
}

func (e *Engine) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if fn, ok := e.methods[k]; ok {
		return fn
	}
	fn := e.ld.lookupMethod(t, m)
	if fn == nil {
		e.unsup("method %s of %s", m.Name(), t)
	}
	e.methods[k] = fn
	return fn
}

func (c *compiler) call(cc *ssa.CallCommon, d int) instrFn {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b, cc, d)
	}
	if fn := cc.StaticCallee(); fn != nil && !cc.IsInvoke() {
		if _, ok := cc.Value.(*ssa.Function); ok {
			var as []opnd
			for _, x := range cc.Args {
				as = append(as, c.op(x))
			}
			var cf *Fn
			return func(e *Engine, g *G, f *Frame) ctl {
				if cf == nil {
					cf = e.getFn(fn)
				}
				if cf.intr != nil {
					args := make([]Value, len(as))
					for j, x := range as {
						args[j] = x.get(f)
					}
					return e.callIntr(g, f, cf, args, d, cc)
				}
				if len(cf.blocks) == 0 {
					e.unsup("no body: %s", cf.name)
				}
				nf := e.newFrame(cf, d)
				for j, x := range as {
					nf.regs[j] = x.get(f)
				}
				e.pushFrame(g, nf)
				return cCall
			}
		}
	}
	mk := c.callPrep(cc)
	return func(e *Engine, g *G, f *Frame) ctl {
		cl, args := mk(e, f)
		return e.enter(g, cl, args, d, false)
	}
}

func (e *Engine) pushFrame(g *G, nf *Frame) {
	if len(g.frames) > 4000 {
		panic(pathEnd{"stack overflow"})
	}
	g.frames = append(g.frames, nf)
	e.markCov(nf.fn)
}

func (e *Engine) markCov(f *Fn) { f.hits++ }

func (e *Engine) callIntr(g *G, f *Frame, cf *Fn, args []Value, d int, cc *ssa.CallCommon) ctl {
	cf.hits++
	e.scratch = cf
	v, ct := cf.intr(e, g, args)
	if ct == cNext && d >= 0 {
		f.regs[d] = v
	}
	return ct
}

// enter calls a closure; for intrinsics the result is stored at once.
func (e *Engine) enter(g *G, cl *Closure, args []Value, ret int, isDef bool) ctl {
	f := g.frames[len(g.frames)-1]
	if cl.bi != nil {
		e.builtinDeferred(cl.bi, args)
		return cNext
	}
	cf := e.getFn(cl.fn)
	if cf.intr != nil {
		return e.callIntr(g, f, cf, args, ret, nil)
	}
	if len(cf.blocks) == 0 {
		e.unsup("no body: %s", cf.name)
	}
	nf := e.newFrame(cf, ret)
	nf.isDef = isDef
	copy(nf.regs, args)
	copy(nf.regs[len(cf.fn.Params):], cl.binds)
	e.pushFrame(g, nf)
	return cCall
}

func (e *Engine) builtinDeferred(b *ssa.Builtin, args []Value) {
	switch b.Name() {
	case "close":
		e.chanClose(args[0])
	case "recover", "print", "println":
	case "delete":
		if m, _ := args[0].p.(*MapObj); m != nil {
			e.mapDelete(m, args[1])
		}
	default:
		e.unsup("deferred builtin %s", b.Name())
	}
}

// top returns the top frame of g, private to the current path.
func (e *Engine) top(g *G) *Frame {
	n := len(g.frames)
	f := g.frames[n-1]
	if f.stamp != e.stamp {
		if len(e.choices) > 0 {
			f = f.clone()
			g.frames[n-1] = f
		}
		f.stamp = e.stamp
	}
	return f
}

func (e *Engine) doReturn(g *G, f *Frame, v Value) ctl {
	n := len(g.frames)
	// g.frames may be shared with a snapshot's backing array only by copy, so
	// truncation is safe
	g.frames = g.frames[:n-1]
	if n == 1 {
		g.done = true
		return cCall
	}
	if f.panicF {
		// a deferred call made while panicking has returned
		return e.afterPanicDefer(g)
	}
	c := e.top(g)
	def, ret := f.isDef, f.ret
	e.freeFrame(f)
	if def {
		return cCall // stays on RunDefers
	}
	if ret >= 0 {
		c.regs[ret] = v
	}
	c.pc++
	return cCall
}

// newFrame makes a frame for the current path.
func (e *Engine) newFrame(cf *Fn, ret int) *Frame {
	if n := cf.nregs; n < len(e.frameBin) {
		if l := len(e.frameBin[n]); l > 0 {
			f := e.frameBin[n][l-1]
			e.frameBin[n] = e.frameBin[n][:l-1]
			f.fn, f.ret, f.stamp = cf, ret, e.stamp
			return f
		}
	}
	return &Frame{fn: cf, regs: make([]Value, cf.nregs), ret: ret, stamp: e.stamp}
}

// freeFrame keeps a frame that has returned for reuse. A frame of the current
// stamp is in no snapshot: those it was in have been cloned.
func (e *Engine) freeFrame(f *Frame) {
	n := len(f.regs)
	if f.stamp != e.stamp || n >= len(e.frameBin) || len(e.frameBin[n]) > 64 {
		return
	}
	clear(f.regs)
	*f = Frame{regs: f.regs}
	e.frameBin[n] = append(e.frameBin[n], f)
}

// ---- panics

func (e *Engine) startPanic(g *G, p goPanic) {
	g.panics = append(g.panics, &goPanicState{val: p.val, msg: p.msg})
	e.unwind(g)
}

func (e *Engine) unwind(g *G) {
	for {
		n := len(g.frames)
		if n == 0 {
			p := g.panics[len(g.panics)-1]
			panic(uncaught{p.msg})
		}
		f := e.top(g)
		if len(f.defers) > 0 {
			dd := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			g.panics[len(g.panics)-1].depth = n - 1
			if dd.cl.bi != nil {
				e.builtinDeferred(dd.cl.bi, dd.args)
				continue
			}
			cf := e.getFn(dd.cl.fn)
			if cf.intr != nil {
				e.scratch = cf
				cf.intr(e, g, dd.args)
				continue
			}
			nf := &Frame{fn: cf, regs: make([]Value, cf.nregs), ret: -1, stamp: e.stamp, panicF: true}
			copy(nf.regs, dd.args)
			copy(nf.regs[len(cf.fn.Params):], dd.cl.binds)
			e.pushFrame(g, nf)
			return
		}
		// no more defers: drop the frame; an older panic unwinding through a
		// deferred call that panicked again is replaced
		if f.panicF && len(g.panics) > 1 {
			g.panics = append(g.panics[:len(g.panics)-2:len(g.panics)-2], g.panics[len(g.panics)-1])
		}
		g.frames = g.frames[:n-1]
	}
}

type uncaught struct{ msg string }

func (e *Engine) afterPanicDefer(g *G) ctl {
	p := g.panics[len(g.panics)-1]
	if !p.recovered {
		e.unwind(g)
		return cCall
	}
	g.panics = g.panics[:len(g.panics)-1]
	f := e.top(g)
	// run the remaining defers and return through the recover block
	if rb := f.fn.fn.Recover; rb != nil {
		f.prev = f.blk
		f.blk = rb.Index
		f.pc = 0
		return cCall
	}
	if len(f.defers) > 0 {
		e.unsup("recover without recover block but pending defers")
	}
	var v Value
	if r := f.fn.fn.Signature.Results(); r.Len() > 1 {
		v = Value{p: &Tuple{make([]Value, r.Len())}}
	}
	return e.doReturn(g, f, v)
}

func (e *Engine) doRecover(g *G) Value {
	// the caller of recover must be the deferred call run by the panic
	n := len(g.frames)
	if n == 0 || len(g.panics) == 0 {
		return Value{}
	}
	f := g.frames[n-1]
	p := g.panics[len(g.panics)-1]
	if !f.panicF || p.recovered || p.depth != n-2 {
		return Value{}
	}
	p.recovered = true
	return p.val
}

// ---- builtins

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, d int) instrFn {
	var as []opnd
	for _, x := range cc.Args {
		as = append(as, c.op(x))
	}
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		at := cc.Args[0].Type().Underlying()
		if p, ok := at.(*types.Pointer); ok {
			at = p.Elem().Underlying()
		}
		if arr, ok := at.(*types.Array); ok {
			n := uint64(arr.Len())
			return func(e *Engine, g *G, f *Frame) ctl { f.regs[d] = Value{n: n}; return cNext }
		}
		return func(e *Engine, g *G, f *Frame) ctl {
			n := 0
			switch x := as[0].get(f).p.(type) {
			case *Slice:
				n = x.len
				if isCap {
					n = x.cap
				}
			case *Str:
				n = x.Len()
			case *MapObj:
				n = x.live
			case *ChanObj:
				n = len(x.buf)
				if isCap {
					n = x.cap
				}
			}
			f.regs[d] = Value{n: uint64(n)}
			return cNext
		}
	case "append":
		es := 1
		st, _ := cc.Args[0].Type().Underlying().(*types.Slice)
		es = c.e.slots(st.Elem())
		strArg := len(cc.Args) > 1 && isString(cc.Args[1].Type())
		return func(e *Engine, g *G, f *Frame) ctl {
			v := as[0].get(f)
			if len(as) == 1 {
				f.regs[d] = v
				return cNext
			}
			w := as[1].get(f)
			if strArg {
				if w.p == nil {
					f.regs[d] = v
					return cNext
				}
				f.regs[d] = e.appendVals(v, w.p.(*Str).bytes(), 1)
				return cNext
			}
			y := getSlice(w)
			if y.len == 0 {
				f.regs[d] = v
				return cNext
			}
			s := getSlice(v)
			n := s.len + y.len
			if n <= s.cap {
				e.copySlots(s.obj, s.off+s.len*es, y.obj, y.off, y.len*es)
				f.regs[d] = Value{p: &Slice{obj: s.obj, off: s.off, len: n, cap: s.cap, es: es}}
				return cNext
			}
			nc := growCap(s.cap, n)
			o := e.newObj(nc*es, es)
			if s.len > 0 {
				e.copySlots(o, 0, s.obj, s.off, s.len*es)
			}
			e.copySlots(o, s.len*es, y.obj, y.off, y.len*es)
			f.regs[d] = Value{p: &Slice{obj: o, len: n, cap: nc, es: es}}
			return cNext
		}
	case "copy":
		strArg := isString(cc.Args[1].Type())
		es := c.e.slots(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		return func(e *Engine, g *G, f *Frame) ctl {
			s := getSlice(as[0].get(f))
			n := s.len
			if strArg {
				st := getStr(as[1].get(f))
				if st.Len() < n {
					n = st.Len()
				}
				if n > 0 {
					e.setN(s.obj, s.off, st.bytes()[:n])
				}
			} else {
				y := getSlice(as[1].get(f))
				if y.len < n {
					n = y.len
				}
				if n > 0 {
					e.copySlots(s.obj, s.off, y.obj, y.off, n*es)
				}
			}
			if d >= 0 {
				f.regs[d] = Value{n: uint64(n)}
			}
			return cNext
		}
	case "delete":
		return func(e *Engine, g *G, f *Frame) ctl {
			if m, _ := as[0].get(f).p.(*MapObj); m != nil {
				e.mapDelete(m, as[1].get(f))
			}
			return cNext
		}
	case "close":
		return func(e *Engine, g *G, f *Frame) ctl { e.chanClose(as[0].get(f)); return cNext }
	case "print", "println":
		return func(e *Engine, g *G, f *Frame) ctl { return cNext }
	case "recover":
		return func(e *Engine, g *G, f *Frame) ctl { f.regs[d] = e.doRecover(g); return cNext }
	case "panic":
		return func(e *Engine, g *G, f *Frame) ctl {
			v := as[0].get(f)
			panic(goPanic{val: v, msg: e.panicText(v)})
		}
	case "ssa:wrapnilchk":
		return func(e *Engine, g *G, f *Frame) ctl {
			v := as[0].get(f)
			if v.p == nil {
				e.nilDeref()
			}
			f.regs[d] = v
			return cNext
		}
	case "min", "max":
		w, signed, ok := intInfo(cc.Args[0].Type())
		if !ok {
			break
		}
		isMin := b.Name() == "min"
		return func(e *Engine, g *G, f *Frame) ctl {
			r := e.term(as[0].get(f), w)
			for _, o := range as[1:] {
				t := e.term(o.get(f), w)
				var lt *Term
				if signed {
					lt = e.tt.Slt(t, r)
				} else {
					lt = e.tt.Ult(t, r)
				}
				if !isMin {
					lt = e.tt.Not(lt)
				}
				r = e.tt.Ite(lt, t, r)
			}
			f.regs[d] = fromTerm(r)
			return cNext
		}
	case "clear":
		return func(e *Engine, g *G, f *Frame) ctl {
			v := as[0].get(f)
			switch x := v.p.(type) {
			case *MapObj:
				for _, en := range x.ents {
					if !en.dead {
						e.mapDelete(x, en.k)
					}
				}
			case *Slice:
				e.zeroN(x.obj, x.off, x.len*x.es)
			}
			return cNext
		}
	case "String": // unsafe.String
		return func(e *Engine, g *G, f *Frame) ctl {
			n := e.concInt(as[1].get(f), "unsafe.String length")
			if n == 0 {
				f.regs[d] = Value{}
				return cNext
			}
			o, off := e.ptr(as[0].get(f))
			f.regs[d] = bytesToStr(e.getN(o, off, n))
			return cNext
		}
	case "StringData":
		return func(e *Engine, g *G, f *Frame) ctl {
			s := getStr(as[0].get(f))
			o := e.newObj(s.Len(), 1)
			e.setN(o, 0, s.bytes())
			f.regs[d] = Value{p: o}
			return cNext
		}
	case "SliceData":
		return func(e *Engine, g *G, f *Frame) ctl {
			v := as[0].get(f)
			if v.p == nil {
				f.regs[d] = Value{}
			} else {
				s := v.p.(*Slice)
				f.regs[d] = Value{n: uint64(s.off), p: s.obj}
			}
			return cNext
		}
	case "Slice": // unsafe.Slice
		es := c.e.slots(cc.Args[0].Type().Underlying().(*types.Pointer).Elem())
		return func(e *Engine, g *G, f *Frame) ctl {
			n := e.concInt(as[1].get(f), "unsafe.Slice length")
			v := as[0].get(f)
			if v.p == nil {
				f.regs[d] = Value{}
				return cNext
			}
			o, off := e.ptr(v)
			f.regs[d] = Value{p: &Slice{obj: o, off: off, len: n, cap: n, es: es}}
			return cNext
		}
	}
	s := b.Name()
	return func(e *Engine, g *G, f *Frame) ctl { e.unsup("builtin %s", s); return cNext }
}

func growCap(old, need int) int {
	nc := old * 2
	if old >= 256 {
		nc = old + (old+768)/4
	}
	if nc < need {
		nc = need
	}
	if nc < 8 {
		nc = 8
	}
	return nc
}

func (e *Engine) appendVals(v Value, vs []Value, es int) Value {
	s := getSlice(v)
	n := s.len + len(vs)/es
	if n <= s.cap {
		e.setN(s.obj, s.off+s.len*es, vs)
		return Value{p: &Slice{obj: s.obj, off: s.off, len: n, cap: s.cap, es: es}}
	}
	nc := growCap(s.cap, n)
	o := e.newObj(nc*es, es)
	if s.len > 0 {
		e.copySlots(o, 0, s.obj, s.off, s.len*es)
	}
	e.setN(o, s.len*es, vs)
	return Value{p: &Slice{obj: o, len: n, cap: nc, es: es}}
}

// choose picks a value 0..n-1 of a fresh symbolic variable, forking over all.
func (e *Engine) choose(n int, name string) int {
	t := e.freshInput(name, 32)
	if e.seqPos < len(e.seq) {
		i := int(e.seq[e.seqPos])
		e.seqPos++
		if e.seqPos > e.pcUpTo {
			e.addPC(e.tt.Eq(t, e.tt.Const(uint64(i), 32)))
			e.pcUpTo = e.seqPos
			if e.seqPos == len(e.seq) && e.job != nil && e.job.needModel {
				e.job.needModel = false
				r, m := e.solver.Check(e.pc, nil, true)
				if r != Sat {
					if r == Unknown {
						e.res.inconclusive("solver unknown on donated prefix")
					}
					panic(pathEnd{"prefix infeasible"})
				}
				e.model = m
			}
		}
		return i
	}
	// the variable is new on this path: every value is possible
	alts := make([]alt, 0, n-1)
	for i := n - 1; i > 0; i-- {
		alts = append(alts, alt{idx: i, model: e.model, fix: t})
	}
	e.pushChoice(alts)
	e.model = e.tt.with(e.model, t, 0)
	e.seq = append(e.seq, 0)
	e.seqPos++
	e.addPC(e.tt.Eq(t, e.tt.Const(0, 32)))
	e.pcUpTo = e.seqPos
	e.ps.ndec++
	return 0
}

func (e *Engine) freshInput(name string, w uint8) *Term {
	i := len(e.ps.inputs)
	var t *Term
	if i < len(e.varCache) && e.varCache[i] != nil && e.varCache[i].w == w {
		t = e.varCache[i]
	} else {
		t = e.tt.Var(fmt.Sprintf("%s#%d", name, i), w)
		for len(e.varCache) <= i {
			e.varCache = append(e.varCache, nil)
		}
		e.varCache[i] = t
	}
	e.ps.inputs = append(e.ps.inputs[:i:i], InputRec{name, t})
	return t
}
