package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) spawn(cl *Closure, args []Value) *G {
	g := &G{id: len(e.gs)}
	n := len(e.gs)
	cf := e.getFn(cl.fn)
	if cf.intr != nil || len(cf.blocks) == 0 {
		e.unsup("go statement on %s", cf.name)
	}
	nf := &Frame{fn: cf, regs: make([]Value, cf.nregs), ret: -1, stamp: e.stamp}
	copy(nf.regs, args)
	copy(nf.regs[len(cf.fn.Params):], cl.binds)
	e.markCov(cf)
	g.frames = append(g.frames, nf)
	e.gs = append(e.gs[:n:n], g)
	return g
}

// schedPoint is a point where another goroutine may be scheduled. With
// schedule exploration on, the next goroutine is a symbolic choice, limited by
// the preemption budget.
func (e *Engine) schedPoint() {
	if !e.ps.sched {
		return
	}
	e.wantSwitch = true
}

// pickNext is called between instructions.
func (e *Engine) maybePreempt() {
	e.wantSwitch = false
	if e.ps.policy > 0 {
		// something may have become runnable: start from the preferred one
		for _, x := range e.gs {
			x.blocked = false
		}
		e.prio()
		return
	}
	if e.ps.preempt <= 0 {
		return
	}
	var cand []int
	cand = append(cand, e.cur)
	for i, g := range e.gs {
		if i != e.cur && !g.done && !g.blocked {
			cand = append(cand, i)
		}
	}
	if len(cand) < 2 {
		return
	}
	if e.ps.delays {
		n := cand[1]
		for _, i := range cand[1:] {
			if i > e.cur {
				n = i
				break
			}
		}
		cand = []int{e.cur, n}
	}
	// a decision between instructions: behaves like an instruction of its own
	e.insStart, e.insTrail, e.insPS, e.insPC = e.seqPos, len(e.trail), e.ps, len(e.pc)
	e.inSched = true
	k := e.choose(len(cand), "sched")
	e.inSched = false
	if k != 0 {
		e.ps.preempt--
		e.cur = cand[k]
	}
}

func (e *Engine) chanSend(g *G, cv, v Value) ctl {
	ch, _ := cv.p.(*ChanObj)
	if ch == nil {
		return cBlock
	}
	if g.send != nil {
		if g.send.done {
			g.send = nil
			e.schedPoint()
			return cNext
		}
		if ch.closed {
			panic(goPanic{val: e.rtErrVal("send on closed channel"), msg: "send on closed channel", rt: true})
		}
		return cBlock
	}
	if ch.closed {
		panic(goPanic{val: e.rtErrVal("send on closed channel"), msg: "send on closed channel", rt: true})
	}
	if len(ch.buf) < ch.cap {
		old := ch.buf
		e.addUndo(func() { ch.buf = old })
		ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], v)
		e.schedPoint()
		return cNext
	}
	if ch.cap > 0 {
		return cBlock
	}
	req := &sendReq{v: v}
	old := ch.sendq
	e.addUndo(func() { ch.sendq = old })
	ch.sendq = append(ch.sendq[:len(ch.sendq):len(ch.sendq)], req)
	g.send = req
	e.progress = true
	return cBlock
}

// recvReady takes a value from the channel if one is available.
func (e *Engine) recvReady(ch *ChanObj) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		old := ch.buf
		e.addUndo(func() { ch.buf = old })
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		return v, true, true
	}
	if len(ch.sendq) > 0 {
		old := ch.sendq
		req := ch.sendq[0]
		e.addUndo(func() { ch.sendq = old; req.done = false })
		ch.sendq = ch.sendq[1:]
		req.done = true
		return req.v, true, true
	}
	if ch.closed {
		return Value{}, false, true
	}
	return Value{}, false, false
}

func (e *Engine) chanRecv(g *G, f *Frame, cv Value, d int, comma bool) ctl {
	ch, _ := cv.p.(*ChanObj)
	if ch == nil {
		return cBlock
	}
	v, ok, ready := e.recvReady(ch)
	if !ready {
		return cBlock
	}
	if comma {
		f.regs[d] = Value{p: &Tuple{[]Value{v, boolV(ok)}}}
	} else {
		f.regs[d] = v
	}
	e.schedPoint()
	return cNext
}

func (e *Engine) chanClose(cv Value) {
	ch, _ := cv.p.(*ChanObj)
	if ch == nil {
		panic(goPanic{val: e.rtErrVal("close of nil channel"), msg: "close of nil channel", rt: true})
	}
	if ch.closed {
		panic(goPanic{val: e.rtErrVal("close of closed channel"), msg: "close of closed channel", rt: true})
	}
	e.addUndo(func() { ch.closed = false })
	ch.closed = true
}

func (c *compiler) selectInstr(x *ssa.Select) instrFn {
	d := c.regs[x]
	type st struct {
		send bool
		ch   opnd
		v    opnd
	}
	var ss []st
	nrecv := 0
	for _, s := range x.States {
		y := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan)}
		if y.send {
			y.v = c.op(s.Send)
		} else {
			nrecv++
		}
		ss = append(ss, y)
	}
	blocking := x.Blocking
	return func(e *Engine, g *G, f *Frame) ctl {
		res := make([]Value, 2+nrecv)
		ri := 0
		for i, s := range ss {
			ch, _ := s.ch.get(f).p.(*ChanObj)
			if s.send {
				if ch == nil {
					continue
				}
				if ch.closed {
					panic(goPanic{val: e.rtErrVal("send on closed channel"), msg: "send on closed channel", rt: true})
				}
				if ch.cap == 0 {
					e.unsup("select with unbuffered send")
				}
				if len(ch.buf) < ch.cap {
					old := ch.buf
					e.addUndo(func() { ch.buf = old })
					ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], s.v.get(f))
					res[0] = Value{n: uint64(i)}
					f.regs[d] = Value{p: &Tuple{res}}
					return cNext
				}
				continue
			}
			if ch != nil {
				if v, ok, ready := e.recvReady(ch); ready {
					res[0] = Value{n: uint64(i)}
					res[1] = boolV(ok)
					res[2+ri] = v
					f.regs[d] = Value{p: &Tuple{res}}
					return cNext
				}
			}
			ri++
		}
		if blocking {
			return cBlock
		}
		res[0] = Value{n: ^uint64(0)}
		f.regs[d] = Value{p: &Tuple{res}}
		return cNext
	}
}

// runPath executes until the main goroutine finishes or the path ends.
// It returns a description of why the path ended.
func (e *Engine) runPath() (out pathOutcome) {
	for {
		again, o := e.runSome()
		if !again {
			return o
		}
	}
}

type pathOutcome struct {
	kind string // done, end, unsupported, panic, deadlock, limit, engine
	msg  string
	loc  string
}

func (e *Engine) where() string {
	if e.cur >= len(e.gs) || len(e.gs[e.cur].frames) == 0 {
		return ""
	}
	s := ""
	fr := e.gs[e.cur].frames
	for i := len(fr) - 1; i >= 0 && i >= len(fr)-6; i-- {
		f := fr[i]
		pos := ""
		if f.blk < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.blk].src) {
			p := e.ld.fset.Position(f.fn.blocks[f.blk].src[f.pc].Pos())
			if p.IsValid() {
				pos = fmt.Sprintf("(%s:%d)", trimRepo(p.Filename), p.Line)
			}
		}
		s += f.fn.name + pos + " < "
	}
	return s
}

func (e *Engine) runSome() (again bool, out pathOutcome) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case goPanic:
			again, out = e.handleGoPanic(x)
		case uncaught:
			again, out = false, pathOutcome{"panic", x.msg, e.where()}
		case unsupported:
			again, out = false, pathOutcome{"unsupported", x.msg, e.where()}
		case pathEnd:
			again, out = false, pathOutcome{"end", x.why, ""}
		case string:
			again, out = false, pathOutcome{"engine", x, e.where()}
		default:
			if e.ld.debugPanics {
				panic(r)
			}
			again, out = false, pathOutcome{"engine", fmt.Sprint(r), e.where()}
		}
	}()
	idle := 0
	for {
		if e.wantSwitch {
			e.maybePreempt()
		}
		g := e.gs[e.cur]
		if g.done {
			if e.cur == 0 {
				return false, pathOutcome{kind: "done"}
			}
			e.nextG()
			idle++
			if idle > len(e.gs)+1 {
				return false, pathOutcome{"deadlock", "all goroutines are blocked", e.whereAll()}
			}
			continue
		}
		f := e.top(g)
		blk := f.fn.blocks[f.blk]
		for {
			e.pathStep++
			if e.pathStep&0xfff == 0 && e.checkLimits() {
				return false, pathOutcome{kind: "limit", msg: e.limitMsg}
			}
			e.insStart = e.seqPos
			e.insTrail = len(e.trail)
			e.insPC = len(e.pc)
			if len(e.choices) >= 0 {
				e.insPS = e.ps
			}
			if !blk.hit {
				blk.hit = true
			}
			ct := blk.code[f.pc](e, g, f)
			switch ct {
			case cNext:
				f.pc++
			case cJump:
				blk = f.fn.blocks[f.blk]
			case cCall:
				if g.done || len(g.frames) == 0 {
					goto out
				}
				f = e.top(g)
				blk = f.fn.blocks[f.blk]
			case cBlock:
				goto blocked
			}
			idle = 0
			if e.wantSwitch {
				e.maybePreempt()
				if e.gs[e.cur] != g {
					goto out
				}
			}
		}
	blocked:
		if e.progress {
			e.progress = false
			idle = 0
		}
		idle++
		if idle > len(e.gs)+1 {
			return false, pathOutcome{"deadlock", "all goroutines are blocked", e.whereAll()}
		}
		g.blocked = true
		e.nextG()
		continue
	out:
		idle = 0
		for _, x := range e.gs {
			x.blocked = false
		}
		continue
	}
}

func (e *Engine) whereAll() string {
	s := ""
	c := e.cur
	for i, g := range e.gs {
		if g.done {
			continue
		}
		e.cur = i
		s += fmt.Sprintf("g%d: %s; ", i, e.where())
	}
	e.cur = c
	return s
}

// prio picks the preferred goroutine among those not known to be blocked.
func (e *Engine) prio() {
	for round := 0; round < 2; round++ {
		for k := range e.gs {
			i := k
			if k > 0 && (e.ps.policy == 2 || e.ps.mainWG) {
				i = len(e.gs) - k
			}
			if g := e.gs[i]; !g.blocked && (!g.done || i == 0) {
				e.cur = i
				return
			}
		}
		for _, x := range e.gs {
			x.blocked = false
		}
	}
}

func (e *Engine) nextG() {
	if e.ps.policy > 0 {
		e.prio()
		return
	}
	for i := 0; i < len(e.gs); i++ {
		e.cur = (e.cur + 1) % len(e.gs)
		if !e.gs[e.cur].done || e.cur == 0 {
			return
		}
	}
}

func (e *Engine) handleGoPanic(p goPanic) (again bool, out pathOutcome) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case uncaught:
			again, out = false, pathOutcome{"panic", x.msg, e.panicLoc}
		case unsupported:
			again, out = false, pathOutcome{"unsupported", x.msg, e.where()}
		case pathEnd:
			again, out = false, pathOutcome{"end", x.why, ""}
		default:
			again, out = false, pathOutcome{"engine", fmt.Sprint(r), e.where()}
		}
	}()
	e.panicLoc = e.where()
	if e.top(e.gs[e.cur]) == nil {
		return false, pathOutcome{"engine", "no frame", ""}
	}
	e.startPanic(e.gs[e.cur], p)
	return true, out
}
