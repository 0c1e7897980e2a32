package main

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Job struct {
	prefix    []int32
	needModel bool
}

type Witness struct {
	Harness string     `json:"harness"`
	Tier    string     `json:"tier"`
	Inputs  []InputVal `json:"inputs"`
	Obs     []ObsVal   `json:"obs,omitempty"`
	Reached []string   `json:"reached,omitempty"`
	Kind    string     `json:"kind,omitempty"`
	Msg     string     `json:"msg,omitempty"`
	Loc     string     `json:"loc,omitempty"`
	NCPU    int        `json:"ncpu,omitempty"`
}

type InputVal struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

type ObsVal struct {
	N string   `json:"n"`
	V []uint64 `json:"v"`
}

// Result accumulates what the exploration of one harness did.
type Result struct {
	mu                sync.Mutex
	H                 *Harness
	Paths             int64
	Ended             int64
	Steps             int64
	Decisions         int64
	Asserts           int64
	Proved            int64
	Incon             map[string]int
	Unsup             map[string]int
	Viol              []*Witness
	violSeen          map[string]bool
	Wits              []*Witness
	Reached           map[string]int
	Fns               map[string]int64
	AllFns            map[string]int64
	Stats             SolverStats
	Wall              time.Duration
	Complete          bool
	Pending           int64
	maxWits           int
	Blocks, BlocksHit int
	stopAt            atomic.Int64 // unix nanoseconds; set when the first violation is found
}

// after the first violation the exploration goes on for this long
const graceAfterViolation = 10 * time.Second

func (r *Result) expired(deadline time.Time) bool {
	now := time.Now()
	if s := r.stopAt.Load(); s != 0 && now.UnixNano() > s {
		return true
	}
	return now.After(deadline)
}

func newResult(h *Harness) *Result {
	return &Result{H: h, Incon: map[string]int{}, Unsup: map[string]int{}, Reached: map[string]int{}, Fns: map[string]int64{}, AllFns: map[string]int64{},
		violSeen: map[string]bool{}, maxWits: 24}
}

func (r *Result) inconclusive(msg string) {
	r.mu.Lock()
	r.Incon[msg]++
	r.mu.Unlock()
}

// pool shares the exploration of one harness over several engines.
type pool struct {
	mu      sync.Mutex
	cond    *sync.Cond
	jobs    []*Job
	idle    int
	n       int
	stop    bool
	timeout bool
}

func (e *Engine) checkLimits() bool {
	if e.pathStep > e.maxSteps {
		e.limitMsg = "step limit"
		return true
	}
	if e.res != nil && e.res.expired(e.deadline) || e.res == nil && time.Now().After(e.deadline) {
		e.limitMsg = "time budget"
		return true
	}
	return false
}

func (e *Engine) violation(kind, msg string, m *Model) {
	w := e.witness(m)
	w.Kind, w.Msg, w.Loc = kind, msg, e.where()
	r := e.res
	r.mu.Lock()
	defer r.mu.Unlock()
	key := kind + "|" + msg
	if len(r.Viol) >= 40 {
		return
	}
	n := 0
	for _, v := range r.Viol {
		if v.Kind+"|"+v.Msg == key {
			n++
		}
	}
	if n >= 3 {
		return
	}
	r.Viol = append(r.Viol, w)
	r.stopAt.CompareAndSwap(0, time.Now().Add(graceAfterViolation).UnixNano())
}

func (e *Engine) witness(m *Model) *Witness {
	w := &Witness{Harness: e.harness.Name, Tier: "quick", NCPU: e.harness.ncpu()}
	if e.harness.thorough {
		w.Tier = "thorough"
	}
	for _, in := range e.ps.inputs {
		w.Inputs = append(w.Inputs, InputVal{in.Name, m.Eval(in.Term)})
	}
	for _, o := range e.ps.obs {
		ov := ObsVal{N: o.Name}
		skip := false
		for _, v := range o.Vals {
			t, ok := v.p.(*Term)
			if !ok {
				ov.V = append(ov.V, v.n)
				continue
			}
			if e.tt.hasHash(t) {
				skip = true
				break
			}
			ov.V = append(ov.V, m.Eval(t))
		}
		if skip {
			ov.V = nil
			ov.N = "?" + ov.N
		}
		w.Obs = append(w.Obs, ov)
	}
	w.Reached = append([]string(nil), e.ps.reached...)
	return w
}

func runHarness(ld *Loaded, h *Harness, workers int, budget time.Duration) *Result {
	r := newResult(h)
	t0 := time.Now()
	p := &pool{n: workers}
	p.cond = sync.NewCond(&p.mu)
	p.jobs = []*Job{{}}
	deadline := t0.Add(budget)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				p.mu.Lock()
				p.idle++
				for len(p.jobs) == 0 && !p.stop && p.idle < p.n {
					p.cond.Wait()
				}
				if len(p.jobs) == 0 || p.stop {
					p.stop = true
					p.cond.Broadcast()
					p.mu.Unlock()
					return
				}
				j := p.jobs[len(p.jobs)-1]
				p.jobs = p.jobs[:len(p.jobs)-1]
				p.idle--
				p.mu.Unlock()
				if r.expired(deadline) {
					p.mu.Lock()
					p.timeout = true
					r.Pending++
					p.mu.Unlock()
					continue
				}
				runJob(ld, h, j, p, r, deadline)
			}
		}()
	}
	wg.Wait()
	r.Complete = !p.timeout
	r.Wall = time.Since(t0)
	return r
}

func runJob(ld *Loaded, h *Harness, j *Job, p *pool, r *Result, deadline time.Time) {
	e := NewEngine(ld)
	e.res = r
	e.harness = h
	e.job = j
	e.deadline = deadline
	e.seq = append([]int32(nil), j.prefix...)
	j.needModel = len(e.seq) > 0
	defer e.solver.Close()
	defer func() {
		r.mu.Lock()
		r.Steps += e.steps + e.pathStep
		r.Stats.Queries += e.stats.Queries
		r.Stats.SatN += e.stats.SatN
		r.Stats.UnsatN += e.stats.UnsatN
		r.Stats.UnknownN += e.stats.UnknownN
		r.Stats.Time += e.stats.Time
		if e.stats.MaxTime > r.Stats.MaxTime {
			r.Stats.MaxTime = e.stats.MaxTime
		}
		for _, f := range e.fns {
			if f.hits > 0 {
				if f.inRepo {
					r.Fns[f.name] += f.hits
				}
				r.AllFns[f.name] += f.hits
			}
		}
		r.mu.Unlock()
	}()
	pkg := ld.pkgs[modPath+pkgSuffix(h.Pkg)]
	fn := pkg.Func(h.Name)
	if fn == nil {
		r.inconclusive("harness function not found")
		return
	}
	// run package initializers, then the harness
	e.initPackages(pkg)
	if e.initFail != "" {
		r.mu.Lock()
		r.Unsup["init: "+e.initFail]++
		r.mu.Unlock()
	}
	e.gs = nil
	e.cur = 0
	e.spawn(&Closure{fn: fn}, nil)
	for {
		out := e.runPath()
		r.mu.Lock()
		r.Decisions += int64(e.ps.ndec)
		switch out.kind {
		case "done":
			r.Paths++
			for _, s := range e.ps.reached {
				r.Reached[s]++
			}
			take := len(r.Wits) < r.maxWits
			r.mu.Unlock()
			if take {
				w := e.witness(e.model)
				r.mu.Lock()
				r.Wits = append(r.Wits, w)
				r.mu.Unlock()
			}
		case "end":
			r.Ended++
			r.mu.Unlock()
		case "panic", "deadlock":
			r.Paths++
			r.mu.Unlock()
			m := e.model
			if len(e.tt.apps) > 0 {
				if res, mm := e.solver.Check(e.pc, nil, true); res == Sat {
					m = mm
				}
			}
			e.violation(out.kind, out.msg, m)
			r.mu.Lock()
			if n := len(r.Viol); n > 0 {
				r.Viol[n-1].Loc = out.loc
			}
			r.mu.Unlock()
		case "unsupported":
			r.Unsup[out.msg+" @ "+out.loc]++
			r.mu.Unlock()
		case "limit":
			r.Incon["path stopped: "+out.msg]++
			if out.msg == "time budget" {
				n := int64(1)
				for _, c := range e.choices {
					n += int64(len(c.alts))
				}
				r.Pending += n
				r.mu.Unlock()
				p.mu.Lock()
				p.timeout = true
				p.mu.Unlock()
				return
			}
			r.mu.Unlock()
		default:
			r.Unsup["engine: "+out.msg+" @ "+out.loc]++
			r.mu.Unlock()
		}
		e.steps += e.pathStep
		e.pathStep = 0
		// share work
		if p.n > 1 {
			p.mu.Lock()
			if p.idle > 0 && len(p.jobs) < p.n {
				if nj := e.donate(); nj != nil {
					p.jobs = append(p.jobs, nj)
					p.cond.Signal()
				}
			}
			p.mu.Unlock()
		}
		if !e.backtrack() {
			return
		}
		if r.expired(deadline) { // short paths never get to checkLimits
			n := int64(1)
			for _, c := range e.choices {
				n += int64(len(c.alts))
			}
			r.mu.Lock()
			r.Pending += n
			r.mu.Unlock()
			p.mu.Lock()
			p.timeout = true
			p.mu.Unlock()
			return
		}
		e.pathStep = 0
		e.ps.ndec = 0
	}
}

func (e *Engine) donate() *Job {
	for _, c := range e.choices {
		if n := len(c.alts); n > 0 {
			a := c.alts[0]
			c.alts = c.alts[1:]
			pre := append([]int32(nil), e.seq[:c.seqLen]...)
			pre = append(pre, int32(a.idx))
			if a.hasVal {
				pre = append(pre, int32(uint32(a.val>>32)), int32(uint32(a.val)))
			}
			return &Job{prefix: pre}
		}
	}
	return nil
}

func pkgSuffix(d string) string {
	if d == "." {
		return ""
	}
	return "/" + d
}

func (e *Engine) initPackages(pkg *ssa.Package) {
	g := &G{}
	e.gs = []*G{g}
	cf := e.getFn(pkg.Func("init"))
	g.frames = []*Frame{{fn: cf, regs: make([]Value, cf.nregs), ret: -1, stamp: e.stamp}}
	saveSeq := e.seq
	e.seq = nil
	o := e.runPath()
	if o.kind != "done" {
		e.initFail = fmt.Sprintf("%s: %s @ %s", o.kind, o.msg, o.loc)
	}
	e.seq = saveSeq
	e.seqPos = 0
	e.pcUpTo = 0
	e.steps += e.pathStep
	e.pathStep = 0
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
