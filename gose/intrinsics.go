package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(e *Engine, g *G, a []Value) (Value, ctl)

var intrinsics map[string]intrinsic

// idealHash lists the hash functions modelled as ideal (injective) hashes and
// their output sizes.
var idealHash = map[string]int{"sha256": 32, "meow": 4}

var concMu sync.Mutex
var concTab = map[string]map[string][]byte{}

func concHashLookup(fn string, out []byte) ([]byte, bool) {
	concMu.Lock()
	defer concMu.Unlock()
	in, ok := concTab[fn][string(out)]
	return in, ok
}

func concHashAdd(fn string, out, in []byte) {
	concMu.Lock()
	defer concMu.Unlock()
	m := concTab[fn]
	if m == nil {
		m = map[string][]byte{}
		concTab[fn] = m
	}
	if _, ok := m[string(out)]; !ok {
		m[string(out)] = in
	}
}

func (e *Engine) hash(fn string, in []Value) []Value {
	size := idealHash[fn]
	if size == 0 {
		e.unsup("hash function %s", fn)
	}
	if cb, ok := concreteBytes(in); ok {
		x := cb
		if fn != "sha256" {
			x = append([]byte(fn+"|"), cb...)
		}
		h := sha256.Sum256(x)
		concHashAdd(fn, h[:size], cb)
		r := make([]Value, 32)
		for i := 0; i < size; i++ {
			r[i].n = uint64(h[i])
		}
		return r
	}
	// hash-cons applications by their input terms
	var sb strings.Builder
	sb.WriteString(fn)
	for _, v := range in {
		if t, ok := v.p.(*Term); ok {
			fmt.Fprintf(&sb, ",t%d", t.id)
		} else {
			fmt.Fprintf(&sb, ",%d", v.n)
		}
	}
	k := sb.String()
	if e.hashApps == nil {
		e.hashApps = map[string]*HashApp{}
	}
	app := e.hashApps[k]
	if app == nil {
		app = &HashApp{fn: fn, in: append([]Value(nil), in...), id: len(e.tt.apps) + 1}
		for i := 0; i < size; i++ {
			t := e.tt.Var(fmt.Sprintf("%s_%d_%d", fn, app.id, i), 8)
			t.hash = app
			t.hashIdx = uint8(i)
			app.bytes = append(app.bytes, t)
		}
		e.tt.apps = append(e.tt.apps, app)
		e.hashApps[k] = app
	}
	r := make([]Value, 32)
	for i := range app.bytes {
		r[i] = Value{p: app.bytes[i]}
	}
	return r
}

func nop(e *Engine, g *G, a []Value) (Value, ctl) { return Value{}, cNext }

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if fn.Synthetic == "package initializer" {
		return nil
	}
	if i := strings.LastIndex(name, "._Cfunc_"); i >= 0 {
		cn := name[i+len("._Cfunc_"):]
		return func(e *Engine, g *G, a []Value) (Value, ctl) { return e.cgoCall(cn, a, fn) }
	}
	return nil
}

func (e *Engine) str(v Value) string {
	s := getStr(v)
	if s.sym != nil {
		e.unsup("symbolic string where a concrete one is needed")
	}
	return s.s
}

// goVal converts a value to a native Go value for formatting.
func (e *Engine) goVal(t types.Type, v Value) any {
	if w, signed, ok := intInfo(t); ok {
		if v.p != nil {
			return "<sym>"
		}
		if signed {
			switch w {
			case 8:
				return int8(v.n)
			case 16:
				return int16(v.n)
			case 32:
				return int32(v.n)
			}
			return int64(v.n)
		}
		switch w {
		case 8:
			return uint8(v.n)
		case 16:
			return uint16(v.n)
		case 32:
			return uint32(v.n)
		}
		return v.n
	}
	if isBool(t) {
		if v.p != nil {
			return "<sym>"
		}
		return v.n != 0
	}
	if isString(t) {
		s := getStr(v)
		if s.sym != nil {
			return "<symstr>"
		}
		return s.s
	}
	if isFloat(t) {
		return math.Float64frombits(v.n)
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		if w, _, _ := intInfo(s.Elem()); w == 8 {
			if b, ok := concreteBytes(e.bytesOf(v)); ok {
				return b
			}
			return "<symbytes>"
		}
	}
	if v.p == nil {
		return nil
	}
	if o, ok := v.p.(*Obj); ok && o.n >= 1 {
		if s, ok := o.get(0).p.(*Str); ok && s.sym == nil {
			return s.s
		}
	}
	return "<" + t.String() + ">"
}

func (e *Engine) fmtArgs(v Value) []any {
	s := getSlice(v)
	var r []any
	for i := 0; i < s.len; i++ {
		x := s.obj.get(s.off + i)
		if ifc, ok := x.p.(*Iface); ok {
			r = append(r, e.goVal(ifc.t, ifc.v))
		} else {
			r = append(r, nil)
		}
	}
	return r
}

func (e *Engine) mkErr(msg string) Value { return e.rtErrVal(msg) }

func (e *Engine) i64(v Value) int64 { return int64(e.concInt(v, "integer argument")) }

func init() {
	in := map[string]intrinsic{}
	intrinsics = in
	V := "github.com/smartbch/moeingads/zzv/vsym."
	conc := func(f func(e *Engine, a []Value) Value) intrinsic {
		return func(e *Engine, g *G, a []Value) (Value, ctl) { return f(e, a), cNext }
	}
	// ---- vsym
	symN := func(w uint8) intrinsic {
		return conc(func(e *Engine, a []Value) Value { return Value{p: e.freshInput(e.str(a[0]), w)} })
	}
	in[V+"U8"], in[V+"U16"], in[V+"U32"], in[V+"U64"], in[V+"I64"] = symN(8), symN(16), symN(32), symN(64), symN(64)
	in[V+"Bool"] = conc(func(e *Engine, a []Value) Value {
		t := e.freshInput(e.str(a[0]), 8)
		e.assume(e.tt.Ult(t, e.tt.Const(2, 8)))
		return fromTerm(e.tt.Eq(t, e.tt.Const(1, 8)))
	})
	in[V+"Bytes"] = conc(func(e *Engine, a []Value) Value {
		n := e.concInt(a[1], "Bytes length")
		nm := e.str(a[0])
		vs := make([]Value, n)
		for i := range vs {
			vs[i].p = e.freshInput(nm, 8)
		}
		return e.mkBytes(vs)
	})
	in[V+"Int"] = conc(func(e *Engine, a []Value) Value {
		lo, hi := e.i64(a[1]), e.i64(a[2])
		t := e.freshInput(e.str(a[0]), 64)
		if lo >= 0 {
			bits := uint8(1)
			for bits < 63 && int64(1)<<bits <= hi {
				bits++
			}
			e.assume(e.tt.Ule(t, e.tt.Const(uint64(hi), 64)))
			if lo > 0 {
				e.assume(e.tt.Ule(e.tt.Const(uint64(lo), 64), t))
			}
		} else {
			e.assume(e.tt.Sle(e.tt.Const(uint64(lo), 64), t))
			e.assume(e.tt.Sle(t, e.tt.Const(uint64(hi), 64)))
		}
		if lo == hi {
			return Value{n: uint64(lo)}
		}
		return Value{p: t}
	})
	in[V+"Choose"] = conc(func(e *Engine, a []Value) Value {
		n := e.concInt(a[1], "Choose")
		if n <= 1 {
			return Value{}
		}
		return Value{n: uint64(e.choose(n, e.str(a[0])))}
	})
	in[V+"Conc"] = conc(func(e *Engine, a []Value) Value { return Value{n: uint64(e.i64(a[0]))} })
	in[V+"Assume"] = conc(func(e *Engine, a []Value) Value {
		if t, ok := a[0].p.(*Term); ok {
			e.assume(t)
		} else if a[0].n == 0 {
			panic(pathEnd{"assume"})
		}
		return Value{}
	})
	in[V+"Assert"] = conc(func(e *Engine, a []Value) Value { e.assertV(a[0], e.str(a[1])); return Value{} })
	in[V+"Reach"] = conc(func(e *Engine, a []Value) Value {
		s := e.str(a[0])
		n := len(e.ps.reached)
		e.ps.reached = append(e.ps.reached[:n:n], s)
		return Value{}
	})
	in[V+"Observe"] = conc(func(e *Engine, a []Value) Value {
		n := len(e.ps.obs)
		e.ps.obs = append(e.ps.obs[:n:n], ObsRec{e.str(a[0]), []Value{a[1]}, 64})
		return Value{}
	})
	in[V+"ObserveBytes"] = conc(func(e *Engine, a []Value) Value {
		n := len(e.ps.obs)
		e.ps.obs = append(e.ps.obs[:n:n], ObsRec{e.str(a[0]), e.bytesOf(a[1]), 8})
		return Value{}
	})
	in[V+"Thorough"] = conc(func(e *Engine, a []Value) Value { return boolV(e.harness.thorough) })
	in[V+"Symbolic"] = conc(func(e *Engine, a []Value) Value { return boolV(true) })
	in[V+"Schedules"] = conc(func(e *Engine, a []Value) Value {
		e.ps.preempt = int(e.i64(a[0]))
		e.ps.sched, e.ps.delays = e.ps.preempt > 0 || e.ps.policy > 0, false
		return Value{}
	})
	in[V+"Delays"] = conc(func(e *Engine, a []Value) Value {
		e.ps.preempt = int(e.i64(a[0]))
		e.ps.sched, e.ps.delays = e.ps.preempt > 0 || e.ps.policy > 0, true
		return Value{}
	})
	in[V+"Policy"] = conc(func(e *Engine, a []Value) Value {
		e.ps.policy = int(e.i64(a[0]))
		e.ps.sched = e.ps.policy > 0 || e.ps.preempt > 0
		return Value{}
	})
	in[V+"MapOrder"] = conc(func(e *Engine, a []Value) Value { e.ps.mapPerm = a[0].n != 0; return Value{} })
	in[V+"Bug"] = conc(func(e *Engine, a []Value) Value { return Value{} })
	in[V+"LenAny"] = conc(func(e *Engine, a []Value) Value {
		i := a[0].p.(*Iface)
		return Value{n: uint64(getSlice(i.v).len)}
	})
	in[V+"SwapAny"] = conc(func(e *Engine, a []Value) Value {
		s := getSlice(a[0].p.(*Iface).v)
		i, j := e.concInt(a[1], "swap"), e.concInt(a[2], "swap")
		x, y := e.getN(s.obj, s.off+i*s.es, s.es), e.getN(s.obj, s.off+j*s.es, s.es)
		e.setN(s.obj, s.off+i*s.es, y)
		e.setN(s.obj, s.off+j*s.es, x)
		return Value{}
	})
	in[V+"IsConc"] = conc(func(e *Engine, a []Value) Value {
		for _, b := range e.bytesOf(a[0]) {
			if b.p != nil {
				return boolV(false)
			}
		}
		return boolV(true)
	})
	in[V+"BytesEq"] = conc(func(e *Engine, a []Value) Value {
		return fromTerm(e.tt.bytesEq(e.bytesOf(a[0]), e.bytesOf(a[1])))
	})
	in[V+"BytesLess"] = conc(func(e *Engine, a []Value) Value {
		return fromTerm(e.tt.bytesLess(e.bytesOf(a[0]), e.bytesOf(a[1])))
	})
	boolOp := func(f func(tt *TermTab, x, y *Term) *Term) intrinsic {
		return conc(func(e *Engine, a []Value) Value { return fromTerm(f(e.tt, e.boolTerm(a[0]), e.boolTerm(a[1]))) })
	}
	in[V+"And"], in[V+"Or"], in[V+"Iff"] = boolOp((*TermTab).And), boolOp((*TermTab).Or), boolOp((*TermTab).Eq)
	in[V+"Implies"] = boolOp(func(tt *TermTab, x, y *Term) *Term { return tt.Or(tt.Not(x), y) })
	in[V+"IteI64"] = conc(func(e *Engine, a []Value) Value {
		return fromTerm(e.tt.Ite(e.boolTerm(a[0]), e.term(a[1], 64), e.term(a[2], 64)))
	})
	in[V+"IteU8"] = conc(func(e *Engine, a []Value) Value {
		return fromTerm(e.tt.Ite(e.boolTerm(a[0]), e.term(a[1], 8), e.term(a[2], 8)))
	})
	in[V+"Sha256"] = conc(func(e *Engine, a []Value) Value { return Value{p: &Agg{e.hash("sha256", e.bytesOf(a[0]))}} })
	in[V+"OpaqueHash"] = conc(func(e *Engine, a []Value) Value {
		return Value{p: &Agg{e.hash(e.str(a[0]), e.bytesOf(a[1]))}}
	})
	in[V+"CloneBytes"] = conc(func(e *Engine, a []Value) Value { return e.mkBytes(e.bytesOf(a[0])) })

	// ---- bytes and strings
	eq := conc(func(e *Engine, a []Value) Value { return fromTerm(e.tt.bytesEq(e.bytesOf(a[0]), e.bytesOf(a[1]))) })
	in["bytes.Equal"], in["internal/bytealg.Equal"] = eq, eq
	cmp := conc(func(e *Engine, a []Value) Value {
		x, y := e.bytesOf(a[0]), e.bytesOf(a[1])
		lt := e.tt.bytesLess(x, y)
		q := e.tt.bytesEq(x, y)
		return fromTerm(e.tt.Ite(lt, e.tt.Const(^uint64(0), 64), e.tt.Ite(q, e.tt.Const(0, 64), e.tt.Const(1, 64))))
	})
	in["bytes.Compare"], in["internal/bytealg.Compare"], in["strings.Compare"], in["internal/bytealg.CompareString"] = cmp, cmp, cmp, cmp
	index := conc(func(e *Engine, a []Value) Value {
		x, y := e.bytesOf(a[0]), e.bytesOf(a[1])
		for i := 0; i+len(y) <= len(x); i++ {
			if e.decide(e.tt.bytesEq(x[i:i+len(y)], y)) {
				return Value{n: uint64(i)}
			}
		}
		return Value{n: ^uint64(0)}
	})
	for _, n := range []string{"bytes.Index", "strings.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		in[n] = index
	}
	lastIndex := conc(func(e *Engine, a []Value) Value {
		x, y := e.bytesOf(a[0]), e.bytesOf(a[1])
		for i := len(x) - len(y); i >= 0; i-- {
			if e.decide(e.tt.bytesEq(x[i:i+len(y)], y)) {
				return Value{n: uint64(i)}
			}
		}
		return Value{n: ^uint64(0)}
	})
	in["bytes.LastIndex"], in["strings.LastIndex"] = lastIndex, lastIndex
	indexByte := conc(func(e *Engine, a []Value) Value {
		for i, b := range e.bytesOf(a[0]) {
			if e.decide(e.tt.Eq(byteTerm(e.tt, b), e.term(a[1], 8))) {
				return Value{n: uint64(i)}
			}
		}
		return Value{n: ^uint64(0)}
	})
	for _, n := range []string{"bytes.IndexByte", "strings.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		in[n] = indexByte
	}
	lastIndexByte := conc(func(e *Engine, a []Value) Value {
		bs := e.bytesOf(a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if e.decide(e.tt.Eq(byteTerm(e.tt, bs[i]), e.term(a[1], 8))) {
				return Value{n: uint64(i)}
			}
		}
		return Value{n: ^uint64(0)}
	})
	for _, n := range []string{"bytes.LastIndexByte", "strings.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		in[n] = lastIndexByte
	}
	count := conc(func(e *Engine, a []Value) Value {
		n := uint64(0)
		for _, b := range e.bytesOf(a[0]) {
			if e.decide(e.tt.Eq(byteTerm(e.tt, b), e.term(a[1], 8))) {
				n++
			}
		}
		return Value{n: n}
	})
	in["internal/bytealg.Count"], in["internal/bytealg.CountString"] = count, count
	in["internal/bytealg.MakeNoZero"] = conc(func(e *Engine, a []Value) Value {
		n := e.concInt(a[0], "MakeNoZero")
		return Value{p: &Slice{obj: e.newObj(n, 1), len: n, cap: n, es: 1}}
	})

	// ---- fmt
	in["fmt.Sprintf"] = conc(func(e *Engine, a []Value) Value { return strV(fmt.Sprintf(e.str(a[0]), e.fmtArgs(a[1])...)) })
	in["fmt.Sprint"] = conc(func(e *Engine, a []Value) Value { return strV(fmt.Sprint(e.fmtArgs(a[0])...)) })
	in["fmt.Sprintln"] = conc(func(e *Engine, a []Value) Value { return strV(fmt.Sprintln(e.fmtArgs(a[0])...)) })
	in["fmt.Errorf"] = conc(func(e *Engine, a []Value) Value { return e.mkErr(fmt.Sprintf(e.str(a[0]), e.fmtArgs(a[1])...)) })
	zero2 := conc(func(e *Engine, a []Value) Value { return Value{p: &Tuple{[]Value{{}, {}}}} })
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		in[n] = zero2
	}
	for _, n := range []string{"log.Printf", "log.Println", "log.Print"} {
		in[n] = nop
	}
	in["strconv.Itoa"] = conc(func(e *Engine, a []Value) Value { return strV(fmt.Sprint(e.i64(a[0]))) })

	// ---- runtime, time
	in["runtime.NumCPU"] = conc(func(e *Engine, a []Value) Value { return Value{n: uint64(e.harness.ncpu())} })
	in["runtime.GOMAXPROCS"] = in["runtime.NumCPU"]
	in["runtime.NumGoroutine"] = conc(func(e *Engine, a []Value) Value { return Value{n: uint64(len(e.gs))} })
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.ReadMemStats", "runtime.SetFinalizer", "time.Sleep",
		"runtime/debug.FreeOSMemory", "runtime/debug.PrintStack", "internal/race.Acquire", "internal/race.Release", "runtime/debug.SetGCPercent"} {
		in[n] = nop
	}
	in["runtime.Gosched"] = func(e *Engine, g *G, a []Value) (Value, ctl) { e.schedPoint(); return Value{}, cNext }
	in["time.Now"] = conc(func(e *Engine, a []Value) Value { return Value{} })
	in["time.Since"] = conc(func(e *Engine, a []Value) Value { return Value{} })
	in["(time.Time).UnixNano"] = conc(func(e *Engine, a []Value) Value { return Value{} })
	in["(time.Time).Unix"] = conc(func(e *Engine, a []Value) Value { return Value{} })
	in["(time.Time).Sub"] = conc(func(e *Engine, a []Value) Value { return Value{} })
	in["errors.Is"] = conc(func(e *Engine, a []Value) Value { return fromTerm(e.valEq(a[0], a[1])) })

	// ---- sync
	in["(*sync.Mutex).Lock"] = func(e *Engine, g *G, a []Value) (Value, ctl) {
		o, off := e.ptr(a[0])
		if o.get(off).n != 0 {
			return Value{}, cBlock
		}
		e.set(o, off, Value{n: 1})
		e.schedPoint()
		return Value{}, cNext
	}
	in["(*sync.Mutex).TryLock"] = conc(func(e *Engine, a []Value) Value {
		o, off := e.ptr(a[0])
		if o.get(off).n != 0 {
			return boolV(false)
		}
		e.set(o, off, Value{n: 1})
		return boolV(true)
	})
	in["(*sync.Mutex).Unlock"] = func(e *Engine, g *G, a []Value) (Value, ctl) {
		o, off := e.ptr(a[0])
		if o.get(off).n == 0 {
			panic(uncaught{"fatal error: sync: unlock of unlocked mutex"})
		}
		e.set(o, off, Value{})
		e.schedPoint()
		return Value{}, cNext
	}
	in["(*sync.RWMutex).Lock"] = func(e *Engine, g *G, a []Value) (Value, ctl) {
		o, off := e.ptr(a[0])
		if o.get(off).n != 0 || o.get(off+1).n != 0 {
			return Value{}, cBlock
		}
		e.set(o, off, Value{n: 1})
		e.schedPoint()
		return Value{}, cNext
	}
	in["(*sync.RWMutex).Unlock"] = func(e *Engine, g *G, a []Value) (Value, ctl) {
		o, off := e.ptr(a[0])
		if o.get(off).n == 0 {
			panic(uncaught{"fatal error: sync: Unlock of unlocked RWMutex"})
		}
		e.set(o, off, Value{})
		e.schedPoint()
		return Value{}, cNext
	}
	in["(*sync.RWMutex).RLock"] = func(e *Engine, g *G, a []Value) (Value, ctl) {
		o, off := e.ptr(a[0])
		if o.get(off).n != 0 {
			return Value{}, cBlock
		}
		e.set(o, off+1, Value{n: o.get(off+1).n + 1})
		e.schedPoint()
		return Value{}, cNext
	}
	in["(*sync.RWMutex).RUnlock"] = func(e *Engine, g *G, a []Value) (Value, ctl) {
		o, off := e.ptr(a[0])
		if o.get(off+1).n == 0 {
			panic(uncaught{"fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		e.set(o, off+1, Value{n: o.get(off+1).n - 1})
		e.schedPoint()
		return Value{}, cNext
	}
	in["(*sync.WaitGroup).Add"] = conc(func(e *Engine, a []Value) Value {
		o, off := e.ptr(a[0])
		n := int64(o.get(off).n) + e.i64(a[1])
		if n < 0 {
			panic(goPanic{val: e.rtErrVal("sync: negative WaitGroup counter"), msg: "sync: negative WaitGroup counter"})
		}
		e.set(o, off, Value{n: uint64(n)})
		return Value{}
	})
	in["(*sync.WaitGroup).Done"] = func(e *Engine, g *G, a []Value) (Value, ctl) {
		o, off := e.ptr(a[0])
		n := int64(o.get(off).n) - 1
		if n < 0 {
			panic(goPanic{val: e.rtErrVal("sync: negative WaitGroup counter"), msg: "sync: negative WaitGroup counter"})
		}
		e.set(o, off, Value{n: uint64(n)})
		e.schedPoint()
		return Value{}, cNext
	}
	in["(*sync.WaitGroup).Wait"] = func(e *Engine, g *G, a []Value) (Value, ctl) {
		o, off := e.ptr(a[0])
		if o.get(off).n != 0 {
			e.ps.mainWG = e.ps.mainWG || g.id == 0
			return Value{}, cBlock
		}
		if g.id == 0 {
			e.ps.mainWG = false
		}
		return Value{}, cNext
	}
	// atomics
	at := func(w uint8, f func(e *Engine, o *Obj, off int, a []Value) Value) intrinsic {
		return func(e *Engine, g *G, a []Value) (Value, ctl) {
			o, off := e.ptr(a[0])
			v := f(e, o, off, a)
			e.schedPoint()
			return v, cNext
		}
	}
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}, {"Bool", 0}} {
		w := t.w
		load := at(w, func(e *Engine, o *Obj, off int, a []Value) Value { return o.get(off) })
		store := at(w, func(e *Engine, o *Obj, off int, a []Value) Value { e.set(o, off, a[1]); return Value{} })
		add := at(w, func(e *Engine, o *Obj, off int, a []Value) Value {
			r := fromTerm(e.tt.Add(e.term(o.get(off), w), e.term(a[1], w)))
			e.set(o, off, r)
			return r
		})
		swap := at(w, func(e *Engine, o *Obj, off int, a []Value) Value { v := o.get(off); e.set(o, off, a[1]); return v })
		cas := at(w, func(e *Engine, o *Obj, off int, a []Value) Value {
			if e.decide(e.valEq(o.get(off), a[1])) {
				e.set(o, off, a[2])
				return boolV(true)
			}
			return boolV(false)
		})
		for _, pre := range []string{"sync/atomic.%s" + t.n, "(*sync/atomic." + t.n + ").%s"} {
			in[fmt.Sprintf(pre, "Load")] = load
			in[fmt.Sprintf(pre, "Store")] = store
			in[fmt.Sprintf(pre, "Add")] = add
			in[fmt.Sprintf(pre, "Swap")] = swap
			in[fmt.Sprintf(pre, "CompareAndSwap")] = cas
		}
	}
	in["math.Float64bits"] = conc(func(e *Engine, a []Value) Value { return a[0] })
	in["math.Float64frombits"] = conc(func(e *Engine, a []Value) Value { return a[0] })
	in["runtime/debug.SetMaxStack"] = nop
	for _, n := range []string{"BenchStart", "BenchEnd", "TSCOverhead"} {
		in["github.com/dterei/gotsc."+n] = conc(func(e *Engine, a []Value) Value { return Value{} })
	}
}

func (e *Engine) assertV(v Value, msg string) {
	t := e.boolTerm(v)
	e.res.Asserts++
	if t == e.tt.T {
		return
	}
	if b, ok := e.known(t); ok && b {
		return
	}
	if e.seqPos < len(e.seq) && e.job != nil && e.job.needModel {
		// replaying a donated prefix: already checked by the donor
		e.addPC(t)
		if t == e.tt.F {
			panic(pathEnd{"assert false"})
		}
		return
	}
	nt := e.tt.Not(t)
	// a model that already violates it
	bad := !e.tt.hasHash(nt) && e.model.Eval(nt) != 0
	m := e.model
	if !bad {
		r, mm := e.check(nt)
		switch r {
		case Sat:
			bad, m = true, mm
		case Unknown:
			e.res.inconclusive("assertion undecided: " + msg)
		default:
			e.res.Proved++
		}
	} else if len(e.tt.apps) > 0 {
		r, mm := e.check(nt)
		bad = r == Sat
		m = mm
	}
	if bad {
		e.violation("assert", msg, m)
		// continue with the assertion assumed
		r, mm := e.check(t)
		if r != Sat {
			panic(pathEnd{"assert violated"})
		}
		e.model = mm
	}
	e.addPC(t)
}
