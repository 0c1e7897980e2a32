package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int64
	CacheHits                       int64
	Time                            time.Duration
	MaxTime                         time.Duration
	CrossChecked                    int64
	CrossDisagree                   int64
}

type Solver struct {
	tt       *TermTab
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	out      *bufio.Reader
	gen      uint32
	stack    []*Term
	stats    *SolverStats
	timeout  int // ms
	bin      []string
	name     string
	other    *Solver
	lemmas   map[[2]int]*Term
	nilCache map[string]SatRes
	rawApps  map[string]bool // hash functions treated as arbitrary functions (no injectivity)
}

var solverGen uint32

func NewSolver(tt *TermTab, stats *SolverStats) *Solver {
	s := &Solver{tt: tt, stats: stats, timeout: 20000, lemmas: map[[2]int]*Term{}, rawApps: map[string]bool{}}
	s.pick(solverName)
	return s
}

// solverName is the solver of a run; the other one is asked when it gives up.
var solverName = "cvc5"

func (s *Solver) pick(name string) {
	s.name = name
	if name == "z3" {
		s.bin = []string{"z3-new", "-in"}
		return
	}
	s.bin = []string{"cvc5", "--incremental", "--lang=smt2", "--produce-models", "--bv-sat-solver=cadical", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<16)
	if d := os.Getenv("GOSE_LOG"); d != "" {
		if f, err := os.CreateTemp(d, "q*.smt2"); err == nil {
			s.w = bufio.NewWriterSize(io.MultiWriter(in, f), 1<<16)
		}
	}
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen = atomic.AddUint32(&solverGen, 1)
	s.stack = nil
	s.w.WriteString("(set-option :global-declarations true)\n")
	if s.name == "z3" {
		fmt.Fprintf(s.w, "(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
	}
	s.w.WriteString("(set-logic QF_BV)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) Close() {
	s.stop()
	if s.other != nil {
		s.other.Close()
		s.other = nil
	}
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.c == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
}

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	return "t" + strconv.FormatUint(uint64(t.id), 10)
}

func (s *Solver) define(t *Term) {
	if t == nil || t.op == OConst || t.defined == s.gen {
		return
	}
	// iterative post-order to keep deep chains off the Go stack
	st := []*Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		if x.op == OConst || x.defined == s.gen {
			st = st[:len(st)-1]
			continue
		}
		ready := true
		for _, y := range x.a {
			if y != nil && y.op != OConst && y.defined != s.gen {
				st = append(st, y)
				ready = false
			}
		}
		if !ready {
			continue
		}
		st = st[:len(st)-1]
		x.defined = s.gen
		if x.op == OVar {
			fmt.Fprintf(s.w, "(declare-const t%d %s)\n", x.id, sortStr(x.w))
			continue
		}
		fmt.Fprintf(s.w, "(define-fun t%d () %s ", x.id, sortStr(x.w))
		s.body(x)
		s.w.WriteString(")\n")
	}
}

func (s *Solver) body(x *Term) {
	w := s.w
	switch x.op {
	case OExtract:
		fmt.Fprintf(w, "((_ extract %d %d) %s)", x.c>>8, x.c&255, s.ref(x.a[0]))
	case OZext:
		fmt.Fprintf(w, "((_ zero_extend %d) %s)", x.w-x.a[0].w, s.ref(x.a[0]))
	case OSext:
		fmt.Fprintf(w, "((_ sign_extend %d) %s)", x.w-x.a[0].w, s.ref(x.a[0]))
	default:
		fmt.Fprintf(w, "(%s", opNames[x.op])
		for _, y := range x.a {
			if y != nil {
				w.WriteByte(' ')
				w.WriteString(s.ref(y))
			}
		}
		w.WriteByte(')')
	}
}

// collectVars gathers the variables of a set of terms.
func collectVars(ts []*Term, seen map[*Term]bool, vars map[*Term]bool) {
	var st []*Term
	st = append(st, ts...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == nil || x.op == OConst || seen[x] {
			continue
		}
		seen[x] = true
		if x.op == OVar {
			vars[x] = true
			continue
		}
		for _, y := range x.a {
			if y != nil {
				st = append(st, y)
			}
		}
	}
}

// hashLemmas returns the constraints relating the hash applications that
// occur in the query: equal inputs give equal outputs, and, for ideal hashes,
// distinct inputs give distinct outputs.
func (s *Solver) hashLemmas(ts []*Term, seen, vars map[*Term]bool) []*Term {
	if len(s.tt.apps) < 2 {
		return nil
	}
	var res []*Term
	done := map[[2]int]bool{}
	for {
		var apps []*HashApp
		have := map[*HashApp]bool{}
		for v := range vars {
			if v.hash != nil && !have[v.hash] {
				have[v.hash] = true
				apps = append(apps, v.hash)
			}
		}
		sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
		added := false
		for i := range apps {
			for j := 0; j < i; j++ {
				k := [2]int{apps[i].id, apps[j].id}
				if done[k] || apps[i].fn != apps[j].fn {
					continue
				}
				done[k] = true
				l := s.lemmas[k]
				if l == nil {
					l = s.pairLemma(apps[i], apps[j])
					s.lemmas[k] = l
				}
				if l != s.tt.T {
					res = append(res, l)
					n := len(vars)
					collectVars([]*Term{l}, seen, vars)
					if len(vars) != n {
						added = true
					}
				}
			}
		}
		if !added {
			return res
		}
	}
}

func (s *Solver) pairLemma(a, b *HashApp) *Term {
	tt := s.tt
	oe := tt.T
	for i := range a.bytes {
		oe = tt.And(oe, tt.Eq(a.bytes[i], b.bytes[i]))
	}
	ie := tt.bytesEq(a.in, b.in)
	if s.rawApps[a.fn] {
		return tt.Or(tt.Not(ie), oe)
	}
	return tt.Eq(oe, ie)
}

func (s *Solver) assertLevel(t *Term) {
	s.define(t)
	fmt.Fprintf(s.w, "(push 1)\n(assert %s)\n", s.ref(t))
}

// Check decides pc and extra; when the solver gives up, the other one is asked.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (SatRes, *Model) {
	r, m := s.check1(pc, extra, wantModel)
	if r != Unknown {
		return r, m
	}
	if s.other == nil {
		s.other = NewSolver(s.tt, s.stats)
		n := "z3"
		if s.name == n {
			n = "cvc5"
		}
		s.other.pick(n)
		s.other.rawApps = s.rawApps
	}
	// both solvers number their definitions through the terms
	s.stop()
	r, m = s.other.check1(pc, extra, wantModel)
	s.other.stop()
	if r != Unknown {
		s.stats.UnknownN--
	}
	return r, m
}

func (s *Solver) check1(pc []*Term, extra *Term, wantModel bool) (SatRes, *Model) {
	if extra == s.tt.F {
		return Unsat, nil
	}
	t0 := time.Now()
	if s.cmd == nil {
		s.start()
	}
	// align the assertion stack
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if len(s.stack) > k {
		fmt.Fprintf(s.w, "(pop %d)\n", len(s.stack)-k)
		s.stack = s.stack[:k]
	}
	for _, t := range pc[k:] {
		s.assertLevel(t)
		s.stack = append(s.stack, t)
	}
	all := append(append([]*Term{}, pc...), extra)
	seen, vars := map[*Term]bool{}, map[*Term]bool{}
	collectVars(all, seen, vars)
	lem := s.hashLemmas(all, seen, vars)
	s.w.WriteString("(push 1)\n")
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(s.w, "(assert %s)\n", s.ref(extra))
	}
	for _, l := range lem {
		s.define(l)
		fmt.Fprintf(s.w, "(assert %s)\n", s.ref(l))
	}
	s.w.WriteString("(check-sat)\n")
	s.w.Flush()
	s.stats.Queries++
	res := Unknown
	line, err := s.readLine()
	switch {
	case err != nil:
		s.Close()
		s.stats.UnknownN++
		return Unknown, nil
	case line == "sat":
		res = Sat
		s.stats.SatN++
	case line == "unsat":
		res = Unsat
		s.stats.UnsatN++
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Println("SOLVER-ERROR", line)
			s.Close()
			s.stats.UnknownN++
			return Unknown, nil
		}
		s.stats.UnknownN++
	}
	var m *Model
	if res == Sat && wantModel {
		m = s.tt.NewModel()
		var vs []*Term
		for v := range vars {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
		for i := 0; i < len(vs); i += 500 {
			j := i + 500
			if j > len(vs) {
				j = len(vs)
			}
			s.w.WriteString("(get-value (")
			for _, v := range vs[i:j] {
				s.w.WriteString(s.ref(v) + " ")
			}
			s.w.WriteString("))\n")
			s.w.Flush()
			if !s.readValues(vs[i:j], m) {
				s.Close()
				return Unknown, nil
			}
		}
	}
	if s.cmd != nil {
		s.w.WriteString("(pop 1)\n")
	}
	d := time.Since(t0)
	s.stats.Time += d
	if d > s.stats.MaxTime {
		s.stats.MaxTime = d
	}
	return res, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readValues(vs []*Term, m *Model) bool {
	// read a balanced s-expression
	depth, started := 0, false
	var sb strings.Builder
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			return false
		}
		switch c {
		case '(':
			depth++
			started = true
			sb.WriteByte(' ')
		case ')':
			depth--
			sb.WriteByte(' ')
		case '\n':
			sb.WriteByte(' ')
		default:
			sb.WriteByte(c)
		}
	}
	f := strings.Fields(sb.String())
	if len(f) > 0 && f[0] == "error" {
		fmt.Println("SOLVER-ERROR", sb.String())
		return false
	}
	byName := map[string]*Term{}
	for _, v := range vs {
		byName[s.ref(v)] = v
	}
	for i := 0; i < len(f); i++ {
		v := byName[f[i]]
		if v == nil || i+1 >= len(f) {
			continue
		}
		i++
		x := f[i]
		switch {
		case x == "true":
			m.set(v, 1)
		case x == "false":
			m.set(v, 0)
		case strings.HasPrefix(x, "#x"):
			n, _ := strconv.ParseUint(x[2:], 16, 64)
			m.set(v, n)
		case strings.HasPrefix(x, "#b"):
			n, _ := strconv.ParseUint(x[2:], 2, 64)
			m.set(v, n)
		case x == "_" && i+2 < len(f):
			n, _ := strconv.ParseUint(strings.TrimPrefix(f[i+1], "bv"), 10, 64)
			m.set(v, n)
			i += 2
		default:
			return false
		}
	}
	return true
}
