package main

import (
	"fmt"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type ctl int

const (
	cNext  ctl = iota // advance pc
	cJump             // block/pc already set
	cCall             // frame pushed or popped
	cBlock            // goroutine blocked, retry later
)

type instrFn func(e *Engine, g *G, f *Frame) ctl

type Fn struct {
	fn     *ssa.Function
	blocks []*Blk
	nregs  int
	name   string
	intr   intrinsic
	hits   int64
	inRepo bool
}

type Blk struct {
	code []instrFn
	src  []ssa.Instruction
	phis []phiInfo
	hit  bool
}

type phiInfo struct {
	dst   int
	edges []opnd
}

type Frame struct {
	fn     *Fn
	regs   []Value
	blk    int
	pc     int
	prev   int // previous block index
	ret    int // caller register for the result, -1 none
	defers []deferred
	isDef  bool // running as a deferred call
	panicF bool // deferred call made while panicking
	stamp  uint32
	env    []Value
}

type deferred struct {
	cl   *Closure
	fn   *ssa.Function
	args []Value
}

type G struct {
	id      int
	frames  []*Frame
	blocked bool
	done    bool
	panics  []*goPanicState
	send    *sendReq
}

type goPanicState struct {
	val       Value // interface value
	recovered bool
	depth     int // frame index being unwound
	msg       string
}

// engine control panics
type goPanic struct {
	val Value
	msg string
	rt  bool
}
type unsupported struct{ msg string }
type pathEnd struct{ why string }
type assertFail struct {
	msg  string
	cond *Term
}

type Choice struct {
	trail   int
	pcLen   int
	seqLen  int // decisions before this one
	instr   int // seq position at start of the instruction
	gs      []gSnap
	cur     int
	alts    []alt
	ps      PathState
	stamp   uint32
	pcUpTo  int
	nG      int
	steps   int64
	instrPS PathState
	sched   bool
}

type alt struct {
	idx    int
	cond   *Term
	model  *Model
	val    uint64
	hasVal bool
	fix    *Term // when set, model is to be changed to fix = idx
}

type gSnap struct {
	g       *G
	frames  []*Frame
	blocked bool
	done    bool
	panics  []*goPanicState
	send    *sendReq
}

type InputRec struct {
	Name string
	Term *Term
}

// PathState is the part of the state that is copied at choice points.
type PathState struct {
	inputs  []InputRec
	obs     []ObsRec
	reached []string
	preempt int
	delays  bool // a preempted goroutine waits for all others
	policy  int  // 0: round robin; 1: oldest goroutine first, but the youngest if main waits for a group; 2: main first, then the youngest
	mainWG  bool // main waits for a group
	sched   bool
	mapPerm bool
	ndec    int
	depth   int
	stdout  int
	symDom  int
}

type ObsRec struct {
	Name string
	Vals []Value
	W    uint8
}

type Engine struct {
	ld      *Loaded
	tt      *TermTab
	solver  *Solver
	stats   SolverStats
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]*Obj
	objID   uint32
	chanID  uint32

	choices  []*Choice
	trail    []trailEnt
	stamp    uint32
	stampC   uint32
	frameBin [256][]*Frame
	pc       []*Term
	pcSet    map[*Term]int8
	eqVal    map[*Term]uint64 // terms fixed to a constant by the path condition
	model    *Model

	seq       []int32 // outcomes of all forks on the current path
	seqPos    int
	pcUpTo    int // forks whose constraint is already in pc
	insPC     int // len(pc) at the start of the current instruction
	insStart  int // seqPos at the start of the current instruction
	insTrail  int
	insPS     PathState
	job       *Job
	gs        []*G
	cur       int
	ps        PathState
	varCache  []*Term
	typeIDs   typeutil.Map
	typeCnt   int
	slotMemo  map[types.Type]int
	fieldMemo map[*types.Struct][]int
	zeroSteps int64

	steps                         int64
	pathStep                      int64
	maxSteps                      int64
	deadline                      time.Time
	res                           *Result
	harness                       *Harness
	cov                           map[*Fn]bool
	methods                       map[methKey]*ssa.Function
	nilMeth                       map[methKey]bool
	cmem                          []*Obj
	forceTrail                    bool
	instrAt                       ssa.Instruction
	intrMemo                      map[string]any
	trace                         bool
	scratch                       any
	mapIDs                        uint32
	maxForkVals                   int
	memo                          map[string]Value
	wantSwitch, inSched, progress bool
	panicLoc                      string
	hashApps                      map[string]*HashApp
	limitMsg                      string
	initFail                      string
}

type methKey struct {
	t  types.Type
	id string
}

func NewEngine(ld *Loaded) *Engine {
	e := &Engine{ld: ld, tt: NewTermTab(), fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Obj{},
		pcSet: map[*Term]int8{}, eqVal: map[*Term]uint64{}, slotMemo: map[types.Type]int{}, fieldMemo: map[*types.Struct][]int{},
		cov: map[*Fn]bool{}, methods: map[methKey]*ssa.Function{}, nilMeth: map[methKey]bool{},
		intrMemo: map[string]any{}, maxSteps: 2e9, maxForkVals: 300}
	e.solver = NewSolver(e.tt, &e.stats)
	e.typeIDs.SetHasher(typeutil.MakeHasher())
	e.model = e.tt.NewModel()
	return e
}

// ---- layout

func (e *Engine) slots(t types.Type) int {
	if n, ok := e.slotMemo[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += e.slots(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * e.slots(u.Elem())
	case *types.Tuple:
		n = 1
	}
	e.slotMemo[t] = n
	return n
}

func (e *Engine) fieldOff(s *types.Struct, i int) int {
	offs, ok := e.fieldMemo[s]
	if !ok {
		n := 0
		for j := 0; j < s.NumFields(); j++ {
			offs = append(offs, n)
			n += e.slots(s.Field(j).Type())
		}
		e.fieldMemo[s] = offs
	}
	return offs[i]
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func aggSlots(v Value, n int) []Value {
	if v.p == nil {
		return make([]Value, n)
	}
	return v.p.(*Agg).v
}

func (e *Engine) loadT(o *Obj, off int, t types.Type) Value {
	if isAgg(t) {
		n := e.slots(t)
		return Value{p: &Agg{e.getN(o, off, n)}}
	}
	return o.get(off)
}

func (e *Engine) storeT(o *Obj, off int, t types.Type, v Value) {
	if isAgg(t) {
		n := e.slots(t)
		if v.p == nil {
			e.zeroN(o, off, n)
			return
		}
		e.setN(o, off, v.p.(*Agg).v)
		return
	}
	e.set(o, off, v)
}

// intInfo gives width and signedness of integer-like types.
func intInfo(t types.Type) (uint8, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// ---- forks

// addPC asserts a constraint that the current model satisfies.
func (e *Engine) addPC(c *Term) {
	if c == e.tt.T {
		return
	}
	if c.op == OAnd {
		e.addPC(c.a[0])
		e.addPC(c.a[1])
		return
	}
	if _, ok := e.pcSet[c]; ok {
		return
	}
	e.pcSet[c] = 1
	e.pc = append(e.pc, c)
	if x, v, ok := eqConst(c); ok {
		if _, dup := e.eqVal[x]; !dup {
			e.eqVal[x] = v
		}
	}
}

func eqConst(c *Term) (*Term, uint64, bool) {
	if c.op == OEq {
		if c.a[1].op == OConst {
			return c.a[0], c.a[1].c, true
		}
		if c.a[0].op == OConst {
			return c.a[1], c.a[0].c, true
		}
	}
	return nil, 0, false
}

func (e *Engine) truncPC(n int) {
	for _, c := range e.pc[n:] {
		delete(e.pcSet, c)
		if x, _, ok := eqConst(c); ok {
			delete(e.eqVal, x)
		}
	}
	e.pc = e.pc[:n]
}

func (e *Engine) known(c *Term) (bool, bool) {
	if c == e.tt.T {
		return true, true
	}
	if c == e.tt.F {
		return false, true
	}
	if _, ok := e.pcSet[c]; ok {
		return true, true
	}
	if _, ok := e.pcSet[e.tt.Not(c)]; ok {
		return false, true
	}
	return false, false
}

// slicePC returns the constraints that (transitively) share a variable with c.
func (e *Engine) check(c *Term) (SatRes, *Model) {
	r, m := e.solver.Check(e.pc, c, true)
	if r == Unknown {
		e.res.inconclusive("solver returned unknown or timed out")
	}
	return r, m
}

// fork chooses one of the conditions; all feasible ones are explored.
func (e *Engine) fork(conds ...*Term) int {
	if e.seqPos < len(e.seq) {
		i := int(e.seq[e.seqPos])
		e.seqPos++
		if e.seqPos > e.pcUpTo {
			e.addPC(conds[i])
			e.pcUpTo = e.seqPos
			if e.seqPos == len(e.seq) && e.job != nil && e.job.needModel {
				// end of a donated prefix: find a model of it
				e.job.needModel = false
				r, m := e.solver.Check(e.pc, nil, true)
				if r != Sat {
					if r == Unknown {
						e.res.inconclusive("solver unknown on donated prefix")
					}
					panic(pathEnd{"prefix infeasible"})
				}
				e.model = m
			}
		}
		return i
	}
	// which one does the current model take?
	cur := -1
	hash := false
	for _, c := range conds {
		hash = hash || e.tt.hasHash(c)
	}
	if hash {
		// hash outputs in a model need not respect the hash axioms: ask
		for i, c := range conds {
			if b, ok := e.known(c); ok && !b {
				continue
			}
			if r, m := e.check(c); r == Sat {
				e.model = m
				cur = i
				break
			}
		}
		if cur < 0 {
			panic(pathEnd{"infeasible"})
		}
	}
	for i, c := range conds {
		if cur >= 0 {
			break
		}
		if b, ok := e.known(c); ok {
			if b {
				cur = i
				break
			}
			continue
		}
		if e.model.Eval(c) != 0 {
			cur = i
			break
		}
	}
	if cur < 0 {
		panic("engine: fork conditions not exhaustive under the current model")
	}
	var alts []alt
	if b, ok := e.known(conds[cur]); !(ok && b) {
		for i, c := range conds {
			if i == cur {
				continue
			}
			if b, ok := e.known(c); ok && !b {
				continue
			}
			r, m := e.check(c)
			if r == Sat {
				alts = append(alts, alt{idx: i, cond: c, model: m})
			}
		}
	}
	if len(alts) > 0 {
		e.pushChoice(alts)
	}
	e.seq = append(e.seq, int32(cur))
	e.seqPos++
	e.addPC(conds[cur])
	e.pcUpTo = e.seqPos
	e.ps.ndec++
	return cur
}

func (e *Engine) decide(c *Term) bool {
	if b, ok := e.known(c); ok {
		return b
	}
	return e.fork(c, e.tt.Not(c)) == 0
}

func (e *Engine) decideV(v Value) bool {
	if t, ok := v.p.(*Term); ok {
		return e.decide(t)
	}
	return v.n != 0
}

// assume adds a constraint, ending the path if it is infeasible.
func (e *Engine) assume(c *Term) {
	if b, ok := e.known(c); ok {
		if !b {
			panic(pathEnd{"assume"})
		}
		return
	}
	// replays of a donated prefix have no model yet
	if e.seqPos < len(e.seq) {
		e.addPC(c)
		return
	}
	if e.tt.hasHash(c) || e.model.Eval(c) == 0 {
		r, m := e.check(c)
		if r != Sat {
			panic(pathEnd{"assume"})
		}
		e.model = m
	}
	e.addPC(c)
}

// concretize forks over the values of a term.
func (e *Engine) concretize(t *Term, what string) uint64 {
	for n := 0; ; n++ {
		if t.op == OConst {
			return t.c
		}
		if v, ok := e.eqVal[t]; ok {
			return v
		}
		if n > e.maxForkVals {
			e.res.inconclusive("too many values for " + what)
			panic(pathEnd{"concretize bound"})
		}
		var v uint64
		if e.seqPos < len(e.seq) {
			// replay: values are recorded after the fork outcome
			i := e.seq[e.seqPos]
			hi, lo := uint32(e.seq[e.seqPos+1]), uint32(e.seq[e.seqPos+2])
			v = uint64(hi)<<32 | uint64(lo)
			e.seqPos += 3
			c := e.tt.Eq(t, e.tt.Const(v, t.w))
			if i != 0 {
				c = e.tt.Not(c)
			}
			if e.seqPos > e.pcUpTo {
				e.addPC(c)
				e.pcUpTo = e.seqPos
				if e.seqPos == len(e.seq) && e.job != nil && e.job.needModel {
					e.job.needModel = false
					r, m := e.solver.Check(e.pc, nil, true)
					if r != Sat {
						panic(pathEnd{"prefix infeasible"})
					}
					e.model = m
				}
			}
			if i == 0 {
				return v
			}
			continue
		}
		v = e.model.Eval(t)
		c := e.tt.Eq(t, e.tt.Const(v, t.w))
		nc := e.tt.Not(c)
		r, m := Unsat, (*Model)(nil)
		if b, ok := e.known(nc); !(ok && !b) {
			r, m = e.check(nc)
		}
		if r == Sat {
			e.pushChoice([]alt{{idx: 1, cond: nc, model: m, val: v, hasVal: true}})
		}
		e.seq = append(e.seq, 0, int32(uint32(v>>32)), int32(uint32(v)))
		e.seqPos += 3
		e.addPC(c)
		e.pcUpTo = e.seqPos
		e.ps.ndec++
		return v
	}
}

func (e *Engine) concInt(v Value, what string) int {
	if t, ok := v.p.(*Term); ok {
		return int(int64(sext(e.concretize(t, what), t.w)))
	}
	return int(int64(v.n))
}

func (e *Engine) pushChoice(alts []alt) {
	ch := &Choice{trail: e.insTrail, pcLen: e.insPC, seqLen: e.seqPos, instr: e.insStart, cur: e.cur,
		alts: alts, ps: e.ps, instrPS: e.insPS, pcUpTo: e.pcUpTo, nG: len(e.gs), steps: e.pathStep, sched: e.inSched}
	for i, g := range e.gs {
		s := gSnap{g: g, frames: append([]*Frame(nil), g.frames...), blocked: g.blocked, done: g.done,
			panics: clonePanics(g.panics), send: g.send}
		// the running frame may be modified after this instruction: keep a copy
		if i == e.cur && len(s.frames) > 0 {
			s.frames[len(s.frames)-1] = s.frames[len(s.frames)-1].clone()
		}
		ch.gs = append(ch.gs, s)
	}
	e.choices = append(e.choices, ch)
	e.stampC++
	e.stamp = e.stampC
	// the running frames stay private to this path: the top one is a copy in
	// the snapshot, lower ones are cloned when returned to (stamp differs)
	if e.cur < len(e.gs) {
		if fr := e.gs[e.cur].frames; len(fr) > 0 {
			fr[len(fr)-1].stamp = e.stamp
		}
	}
}

func clonePanics(ps []*goPanicState) []*goPanicState {
	if len(ps) == 0 {
		return nil
	}
	r := make([]*goPanicState, len(ps))
	for i, p := range ps {
		c := *p
		r[i] = &c
	}
	return r
}

func (f *Frame) clone() *Frame {
	c := *f
	c.regs = append([]Value(nil), f.regs...)
	c.defers = append([]deferred(nil), f.defers...)
	return &c
}

// backtrack resumes the most recent choice with an untried alternative.
func (e *Engine) backtrack() bool {
	for len(e.choices) > 0 {
		ch := e.choices[len(e.choices)-1]
		if len(ch.alts) == 0 {
			e.undoTo(ch.trail)
			e.choices = e.choices[:len(e.choices)-1]
			continue
		}
		a := ch.alts[len(ch.alts)-1]
		ch.alts = ch.alts[:len(ch.alts)-1]
		e.undoTo(ch.trail)
		e.truncPC(ch.pcLen)
		last := len(ch.alts) == 0
		e.stampC++
		e.stamp = e.stampC
		e.gs = e.gs[:0]
		for i, s := range ch.gs {
			g := s.g
			fr := append([]*Frame(nil), s.frames...)
			if i == ch.cur && len(fr) > 0 {
				t := fr[len(fr)-1]
				if !last {
					t = t.clone()
				}
				t.stamp = e.stamp
				fr[len(fr)-1] = t
			}
			g.frames = fr
			g.blocked, g.done, g.send = s.blocked, s.done, s.send
			g.panics = clonePanics(s.panics)
			e.gs = append(e.gs, g)
		}
		e.cur = ch.cur
		e.ps = ch.instrPS
		e.seq = append(e.seq[:ch.seqLen], int32(a.idx))
		if a.hasVal {
			v := a.val
			e.seq = append(e.seq, int32(uint32(v>>32)), int32(uint32(v)))
		}
		// the interrupted instruction runs again from its start and takes the
		// recorded decisions, which adds their constraints again
		e.pcUpTo = ch.instr
		e.seqPos = ch.instr
		e.model = a.model
		if a.fix != nil {
			e.model = e.tt.with(a.model, a.fix, uint64(a.idx))
		}
		e.pathStep = ch.steps
		e.wantSwitch = ch.sched
		e.inSched, e.progress = false, false
		if last {
			e.choices = e.choices[:len(e.choices)-1]
		}
		return true
	}
	return false
}

func (e *Engine) unsup(f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}
