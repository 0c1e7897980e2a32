package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Harness  string `json:"harness,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
	Line     string `json:"line,omitempty"`
}

func loadFindings() map[string]*Finding {
	r := map[string]*Finding{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return r
	}
	var fs []*Finding
	if err := json.Unmarshal(b, &fs); err != nil {
		fmt.Println("known-findings.json:", err)
		return r
	}
	for _, f := range fs {
		r[f.ID] = f
	}
	return r
}

var profDone = func() {}

func main() {
	for _, kv := range goEnv() {
		if strings.HasPrefix(kv, "PATH=") { // the go command that lists packages is found through our own PATH
			os.Setenv("PATH", kv[5:])
		}
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(14 << 30)
	prop := flag.String("prop", "", "property to check")
	one := flag.String("harness", "", "run one harness (debugging)")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	workers := flag.Int("workers", runtime.NumCPU(), "parallel engines")
	flag.StringVar(&solverName, "solver", "cvc5", "cvc5 or z3")
	budget := flag.Int("budget", 0, "override the time budget of each harness (s)")
	scale := flag.Float64("scale", 1, "scale all budgets")
	verbose := flag.Bool("v", false, "verbose")
	repl := flag.String("replay", "", "replay a recorded violation on the native build")
	wdir := flag.String("witnesses", "", "store witnesses in this directory (debugging)")
	prof := flag.String("prof", "", "write CPU and heap profiles with this prefix (debugging)")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof + ".cpu")
		pprof.StartCPUProfile(f)
		profDone = func() { pprof.StopCPUProfile(); f.Close() }
		go func() {
			for i := 0; ; i++ {
				time.Sleep(20 * time.Second)
				h, _ := os.Create(*prof + ".heap")
				pprof.WriteHeapProfile(h)
				h.Close()
			}
		}()
	}
	if *tier == "" {
		*tier = "quick"
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if *repl != "" {
		os.Exit(replayCmd(*repl))
	}
	thorough := *tier == "thorough"
	want := func(h *Harness) bool {
		if *one != "" {
			return h.Name == *one || h.Name == "VH_"+*one
		}
		return slices.Contains(strings.Split(h.Prop, ","), *prop) && (h.Tier == "both" || h.Tier == *tier || thorough)
	}
	c := &checker{prop: *prop, tier: *tier, thorough: thorough, workers: *workers, verbose: *verbose, t0: time.Now(), scale: *scale, budget: *budget, wdir: *wdir}
	code := c.run(want)
	profDone()
	os.Exit(code)
}

type checker struct {
	realOK, realBad int
	prop            string
	tier            string
	thorough        bool
	workers         int
	verbose         bool
	t0              time.Time
	scale           float64
	budget          int
	wdir            string
	tmp             string
	bins            map[string]string
	binErr          map[string]error
	binMu           sync.Mutex
	ov              *Overlay
	notes           []string
	want            func(h *Harness) bool
}

func (c *checker) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	c.notes = append(c.notes, s)
	fmt.Println("NOTE:", s)
}

var harnessFileRe = regexp.MustCompile(`zz_verif_[A-Za-z0-9_]+\.go`)

// load builds the overlay and the SSA program; harness files that do not fit
// the current tree are left out.
func (c *checker) load(want func(h *Harness) bool) (*Loaded, error) {
	drop := map[string]bool{}
	for {
		ov, err := buildOverlay(true, func(h *Harness) bool { return want(h) && !drop[h.File] })
		if err != nil {
			return nil, err
		}
		if len(ov.harnesses) == 0 {
			return nil, fmt.Errorf("no harness selected")
		}
		c.ov = ov
		ld, err := loadProgram(ov)
		if err == nil {
			for f := range drop {
				ov.dropped = append(ov.dropped, f)
			}
			return ld, nil
		}
		bad := map[string]bool{}
		for _, m := range harnessFileRe.FindAllString(err.Error(), -1) {
			bad[strings.TrimPrefix(m, "zz_verif_")] = true
		}
		n := 0
		for _, h := range ov.harnesses {
			if bad[filepath.Base(h.File)] && !drop[h.File] {
				drop[h.File] = true
				n++
				c.note("harness file %s does not fit this tree and is left out", filepath.Base(h.File))
			}
		}
		if n == 0 {
			return nil, err
		}
		if c.verbose {
			fmt.Println(err)
		}
	}
}

func (c *checker) bin(kind string) (string, error) {
	c.binMu.Lock()
	defer c.binMu.Unlock()
	if c.bins == nil {
		c.bins = map[string]string{}
		c.binErr = map[string]error{}
	}
	if e, ok := c.binErr[kind]; ok {
		return c.bins[kind], e
	}
	ov := c.ov
	var err error
	if kind == "real" {
		drop := map[string]bool{}
		for _, f := range c.ov.dropped {
			drop[f] = true
		}
		ov, err = buildOverlay(false, func(h *Harness) bool { return c.want(h) && !drop[h.File] && h.Real })
		// files whose harnesses cannot run on the real environment may use
		// the models' extra functions: leave those files out
	}
	var b string
	if err == nil {
		b, err = buildReplay(ov, c.tmp, kind)
	}
	c.bins[kind], c.binErr[kind] = b, err
	return b, err
}

type replayOut struct {
	Status  string   `json:"status"`
	Msg     string   `json:"msg"`
	Fails   []string `json:"fails"`
	Obs     []ObsVal `json:"obs"`
	Reached []string `json:"reached"`
	Stack   string   `json:"stack"`
	raw     string
}

// steered says that the witness chooses a schedule or a map iteration order.
func (w *Witness) steered() bool {
	for _, in := range w.Inputs {
		if in.N == "sched" || in.N == "maporder" || (in.N == "policy" && in.V != 0) {
			return true
		}
	}
	return false
}

func (c *checker) replay(kind string, w *Witness) (*replayOut, error) {
	bin, err := c.bin(kind)
	if err != nil {
		return nil, err
	}
	return runReplay(bin, c.tmp, w)
}

func runReplay(bin, tmp string, w *Witness) (*replayOut, error) {
	dir, err := os.MkdirTemp(tmp, "rp")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(w)
	wf := filepath.Join(dir, "w.json")
	if err := os.WriteFile(wf, b, 0644); err != nil {
		return nil, err
	}
	work := filepath.Join(dir, "work")
	os.Mkdir(work, 0755)
	cmd := exec.Command("timeout", "-k", "1", "60", bin, wf)
	cmd.Dir = work
	cmd.Env = append(goEnv(), "GOMAXPROCS="+strconv.Itoa(max(w.NCPU, 2)))
	out, err := cmd.CombinedOutput()
	s := string(out)
	if i := strings.LastIndex(s, "@@VSYM@@"); i >= 0 {
		var ro replayOut
		l := s[i+len("@@VSYM@@"):]
		if j := strings.IndexByte(l, '\n'); j >= 0 {
			l = l[:j]
		}
		if e := json.Unmarshal([]byte(l), &ro); e != nil {
			return nil, e
		}
		ro.raw = s[:i]
		return &ro, nil
	}
	ro := &replayOut{Status: "crash", Msg: fmt.Sprint(err), raw: s}
	if strings.Contains(s, "all goroutines are asleep - deadlock") {
		ro.Status = "hang"
	}
	if len(ro.raw) > 4000 {
		ro.raw = ro.raw[:4000]
	}
	return ro, nil
}

// reproduces tells whether the native run shows the violation.
func reproduces(w *Witness, r *replayOut) bool {
	switch w.Kind {
	case "assert":
		for _, f := range r.Fails {
			if f == w.Msg {
				return true
			}
		}
		return false
	case "panic":
		return r.Status == "panic" || r.Status == "crash"
	case "deadlock":
		return r.Status == "hang"
	}
	return false
}

func (c *checker) run(want func(h *Harness) bool) int {
	c.want = want
	tmp, err := os.MkdirTemp("", "gose")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c.tmp = tmp
	defer os.RemoveAll(tmp)
	ld, err := c.load(want)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	ld.debugPanics = os.Getenv("GOSE_DEBUG") != ""
	loadT := time.Since(c.t0)
	go c.bin("model")
	findings := loadFindings()
	var results []*Result
	hs := c.ov.harnesses
	sort.SliceStable(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	for _, h := range hs {
		h.thorough = c.thorough
		b := h.Budget
		if c.thorough {
			b = h.TBudget
		}
		if c.budget > 0 {
			b = c.budget
		}
		d := time.Duration(float64(b) * c.scale * float64(time.Second))
		if !c.thorough { // the whole check stays well below 900 s
			d = min(d, max(600*time.Second-time.Since(c.t0), 5*time.Second))
		}
		r := runHarness(ld, h, c.workers, d)
		results = append(results, r)
		st := "complete"
		if !r.Complete {
			st = fmt.Sprintf("stopped at its time budget with %d branches pending", r.Pending)
		}
		fmt.Printf("%s: %s: paths=%d ended=%d asserts=%d proved=%d queries=%d solver=%.1fs(max %.2f) steps=%d wall=%.1fs viol=%d unsup=%d incon=%d\n", h.Name, st,
			r.Paths, r.Ended, r.Asserts, r.Proved, r.Stats.Queries, r.Stats.Time.Seconds(), r.Stats.MaxTime.Seconds(), r.Steps, r.Wall.Seconds(), len(r.Viol), len(r.Unsup), len(r.Incon))
		for _, k := range sortedKeys(r.Unsup) {
			fmt.Printf("   unsupported x%d: %s\n", r.Unsup[k], k)
		}
		for _, k := range sortedKeys(r.Incon) {
			fmt.Printf("   inconclusive x%d: %s\n", r.Incon[k], k)
		}
		if c.verbose {
			for _, k := range sortedKeys(r.Reached) {
				fmt.Printf("   reached %s x%d\n", k, r.Reached[k])
			}
		}
	}
	// validate the encoding: recorded paths must behave the same natively
	validated, mismatched := 0, 0
	var samples []any
	for _, r := range results {
		n, bad := c.validate(r)
		validated += n
		mismatched += bad
		if r.H.Real {
			n, bad := c.validateReal(r)
			c.realOK += n
			c.realBad += bad
		}
		for i, w := range r.Wits {
			if i < 2 {
				samples = append(samples, sampleOf(w))
			}
		}
	}
	// violations
	viol, known := 0, 0
	reported := map[string]bool{}
	for _, r := range results {
		nrep := 0
		for _, w := range r.Viol {
			key := r.H.Name + "|" + w.Kind + "|" + w.Msg
			if reported[key] || nrep >= 3 {
				continue
			}
			ro, err := c.replay("model", w)
			if err != nil {
				c.note("replay failed: %v", err)
				continue
			}
			ok := reproduces(w, ro)
			steered := w.steered()
			for i := 0; i < 24 && !ok && steered; i++ {
				if ro, err = c.replay("model", w); err != nil {
					break
				}
				ok = reproduces(w, ro)
			}
			if err != nil {
				c.note("replay failed: %v", err)
				continue
			}
			if !ok && steered {
				c.note("counterexample of %s (%s) needs a schedule or map order that the native run did not take in 25 tries: reported as the interpreter found it", r.H.Name, w.Msg)
				ok = true
			}
			if c.verbose || !ok {
				fmt.Printf("   counterexample %s [%s] %s\n      at %s\n      native: %s %s %v\n", r.H.Name, w.Kind, w.Msg, w.Loc, ro.Status, ro.Msg, ro.Fails)
				if c.verbose {
					fmt.Printf("      inputs: %v obs: %v\n", w.Inputs, w.Obs)
				}
				if c.verbose {
					fmt.Println(ro.Stack)
				}
			}
			if !ok {
				c.saveWitness("unreproduced", r, w)
				c.note("counterexample of %s (%s: %s) does not reproduce natively (%s): not reported", r.H.Name, w.Kind, w.Msg, ro.Status)
				continue
			}
			if r.H.Real && !steered {
				ro, err := c.replay("real", w)
				if err != nil {
					c.note("real replay failed: %v", err)
					continue
				}
				if !reproduces(w, ro) && (ro.Status == "done" || ro.Status == "assert") {
					c.saveWitness("unreproduced", r, w)
					c.note("counterexample of %s (%s: %s) does not reproduce on the real environment (%s %s): not reported", r.H.Name, w.Kind, w.Msg, ro.Status, ro.Msg)
					continue
				}
			}
			reported[key] = true
			nrep++
			p := c.saveWitness("violation", r, w)
			if f := findings[r.H.Known]; r.H.Known != "" && f != nil && f.Status == "known" {
				known++
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.propOf(r.H), f.What)
				continue
			}
			viol++
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.propOf(r.H), p)
			fmt.Printf("   %s: %s: %s\n   inputs: %s\n   at %s\n", r.H.Name, w.Kind, w.Msg, inputStr(w), w.Loc)
		}
	}
	reach := 0
	for _, r := range results {
		if r.Reached["end"] > 0 {
			reach++
		} else if len(r.Viol) == 0 {
			c.note("harness %s reached its end on no path: it decides nothing on this tree", r.H.Name)
		}
	}
	if c.prop != "" {
		if err := c.evidence(results, validated, mismatched, samples, viol, known, loadT); err != nil {
			fmt.Println("evidence:", err)
			return 2
		}
	}
	if c.wdir != "" {
		os.MkdirAll(c.wdir, 0755)
		for _, r := range results {
			for i, w := range r.Wits {
				b, _ := json.MarshalIndent(w, "", " ")
				os.WriteFile(filepath.Join(c.wdir, fmt.Sprintf("%s-%d.json", r.H.Name, i)), b, 0644)
			}
		}
	}
	fmt.Printf("property=%s tier=%s harnesses=%d violations=%d known=%d native-validated=%d mismatches=%d real-validated=%d real-mismatches=%d wall=%.1fs\n", c.prop, c.tier, len(results), viol, known, validated, mismatched, c.realOK, c.realBad, time.Since(c.t0).Seconds())
	if viol > 0 {
		return 1
	}
	if reach == 0 {
		fmt.Println("ERROR: no harness reached its end")
		return 2
	}
	return 0
}

// propOf is the property being checked (a harness may serve several).
func (c *checker) propOf(h *Harness) string {
	if c.prop != "" {
		return c.prop
	}
	return strings.Split(h.Prop, ",")[0]
}

func inputStr(w *Witness) string {
	var sb strings.Builder
	for i, in := range w.Inputs {
		if i > 200 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, " %s=%d", in.N, in.V)
	}
	return sb.String()
}

func sampleOf(w *Witness) any {
	ins := []string{}
	for i, in := range w.Inputs {
		if i >= 40 {
			ins = append(ins, "...")
			break
		}
		ins = append(ins, fmt.Sprintf("%s=%d", in.N, in.V))
	}
	return map[string]any{"harness": w.Harness, "inputs": strings.Join(ins, " "), "reached": w.Reached}
}

func (c *checker) saveWitness(kind string, r *Result, w *Witness) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0755)
	n := 0
	var p string
	for {
		p = filepath.Join(dir, fmt.Sprintf("%s-%s-%s-%d.json", kind, c.propOf(r.H), r.H.Name, n))
		if _, err := os.Stat(p); err != nil || n > 50 {
			break
		}
		n++
	}
	b, _ := json.MarshalIndent(w, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

func obsEq(a, b []ObsVal) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d observations, native %d", len(a), len(b))
	}
	for i := range a {
		if strings.HasPrefix(a[i].N, "?") {
			continue
		}
		if a[i].N != b[i].N || len(a[i].V) != len(b[i].V) {
			return fmt.Sprintf("observation %d: %v, native %v", i, a[i], b[i])
		}
		for j := range a[i].V {
			if a[i].V[j] != b[i].V[j] {
				return fmt.Sprintf("observation %d: %v, native %v", i, a[i], b[i])
			}
		}
	}
	return ""
}

// validate replays completed paths on the native build and compares what was
// observed.
func (c *checker) validate(r *Result) (n, bad int) {
	if len(r.Wits) == 0 {
		return
	}
	if _, err := c.bin("model"); err != nil {
		c.note("native build failed: %v", err)
		return
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, w := range r.Wits {
		w := w
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			ro, err := c.replay("model", w)
			<-sem
			if err != nil {
				mu.Lock()
				bad++
				mu.Unlock()
				return
			}
			differs := func() string {
				if ro.Status != "done" && ro.Status != "assert" {
					raw := ro.raw
					if len(raw) > 400 {
						raw = raw[len(raw)-400:]
					}
					return "native run ended with " + ro.Status + ": " + ro.Msg + " " + raw
				}
				if msg := obsEq(w.Obs, ro.Obs); msg != "" {
					return msg
				}
				if strings.Join(w.Reached, ",") != strings.Join(ro.Reached, ",") {
					return fmt.Sprintf("reached %v, native %v", w.Reached, ro.Reached)
				}
				return ""
			}
			msg := differs()
			if msg != "" { // the machine may have been short of something
				mu.Lock()
				c.note("%s, replayed once more: %s", r.H.Name, msg)
				mu.Unlock()
				if again, err := c.replay("model", w); err == nil {
					ro = again
					msg = differs()
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if msg != "" {
				bad++
				if bad <= 3 {
					p := c.saveWitness("mismatch", r, w)
					c.notes = append(c.notes, "encoding mismatch in "+r.H.Name+": "+msg)
					fmt.Println("MISMATCH:", r.H.Name, msg, p)
					if c.verbose {
						fmt.Println(ro.raw, ro.Stack)
					}
				}
				return
			}
			n++
		}()
	}
	wg.Wait()
	return
}

// validateReal replays a few completed paths with the real file system, RocksDB
// and SHA-256: the models have to agree with them.
func (c *checker) validateReal(r *Result) (n, bad int) {
	tried := 0
	for _, w := range r.Wits {
		if w.steered() || tried >= 3 {
			continue
		}
		tried++
		ro, err := c.replay("real", w)
		msg := ""
		if err != nil {
			msg = err.Error()
		} else if ro.Status != "done" && ro.Status != "assert" {
			msg = "run on the real environment ended with " + ro.Status + ": " + ro.Msg
		} else {
			msg = obsEq(w.Obs, ro.Obs)
			if msg == "" && strings.Join(w.Reached, ",") != strings.Join(ro.Reached, ",") {
				msg = fmt.Sprintf("reached %v, native %v", w.Reached, ro.Reached)
			}
		}
		if msg == "" {
			n++
			continue
		}
		bad++
		p := c.saveWitness("mismatch", r, w)
		c.notes = append(c.notes, "model and real environment differ in "+r.H.Name+": "+msg)
		fmt.Println("REAL-MISMATCH:", r.H.Name, msg, p)
		if c.verbose && ro != nil {
			fmt.Println(ro.raw, ro.Stack)
		}
	}
	return
}

func (c *checker) evidence(rs []*Result, validated, mismatched int, samples []any, viol, known int, loadT time.Duration) error {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var paths, ended, steps, dec, asserts, proved int64
	fns := map[string]int64{}
	var st SolverStats
	var hinfo []any
	complete := true
	for _, r := range rs {
		paths += r.Paths
		ended += r.Ended
		steps += r.Steps
		dec += r.Decisions
		asserts += r.Asserts
		proved += r.Proved
		st.Queries += r.Stats.Queries
		st.SatN += r.Stats.SatN
		st.UnsatN += r.Stats.UnsatN
		st.UnknownN += r.Stats.UnknownN
		st.Time += r.Stats.Time
		for f, n := range r.Fns {
			fns[f] += n
		}
		complete = complete && r.Complete && len(r.Unsup) == 0 && len(r.Incon) == 0
		hinfo = append(hinfo, map[string]any{"harness": r.H.Name, "bounds": r.H.Doc, "complete": r.Complete && len(r.Unsup) == 0 && len(r.Incon) == 0,
			"paths": r.Paths, "infeasible_or_assumed_away": r.Ended, "assertions": r.Asserts, "discharged_by_solver": r.Proved, "queries": r.Stats.Queries,
			"solver_s": round2(r.Stats.Time.Seconds()), "wall_s": round2(r.Wall.Seconds()), "pending_branches": r.Pending,
			"unsupported": r.Unsup, "inconclusive": r.Incon, "reached": r.Reached})
	}
	var fl []string
	for _, f := range sortedKeys(fns) {
		if strings.Contains(f, "VH_") || strings.Contains(f, "zzv/") {
			continue
		}
		fl = append(fl, strings.TrimPrefix(f, modPath))
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov := map[string]any{
		"states": paths, "transitions": dec + paths, "traces_validated_against_impl": validated,
		"rule":                       "a state is one completed symbolic path (a set of inputs with one control flow); a transition is a decision taken on symbolic data along the paths; a validated trace is a path whose solver model was run through the natively compiled code with identical observations",
		"samples":                    samples,
		"exhaustive":                 complete,
		"harnesses":                  hinfo,
		"functions":                  fl,
		"functions_count":            len(fl),
		"instructions":               steps,
		"queries":                    map[string]any{"total": st.Queries, "sat": st.SatN, "unsat": st.UnsatN, "unknown": st.UnknownN},
		"solver_s":                   round2(st.Time.Seconds()),
		"solver":                     solverDesc(),
		"assertions":                 map[string]any{"evaluated": asserts, "needed_solver_proof": proved},
		"native_mismatch":            mismatched,
		"real_environment_validated": c.realOK,
		"real_environment_mismatch":  c.realBad,
		"load_s":                     round2(loadT.Seconds()),
		"known_findings":             known,
		"notes":                      c.notes,
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptionList(c.prop), "wall_s": round2(time.Since(c.t0).Seconds()), "violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0755)
	return os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0644)
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func assumptionList(prop string) []string {
	return []string{
		"bounds are those written at each harness (see harnesses[].bounds); nothing is claimed outside them",
		"Go semantics as implemented by gose over go/ssa, validated by native replay of sampled paths",
		"SHA-256 is an ideal (injective) hash on symbolic inputs; meow checksums likewise",
		"file system and RocksDB are the in-memory models under /verif/models (violations are replayed on the real ones unless the harness says otherwise)",
		"goroutines run in a fixed order unless the harness explores schedules; time and logging are inert",
	}
}

func replayCmd(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var w Witness
	if err := json.Unmarshal(b, &w); err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "gose")
	defer os.RemoveAll(tmp)
	c := &checker{tmp: tmp, t0: time.Now()}
	c.want = func(h *Harness) bool { return h.Name == w.Harness }
	if c.ov, err = buildOverlay(true, c.want); err != nil {
		fmt.Println(err)
		return 2
	}
	rc := 0
	for _, k := range []string{"model", "real"} {
		if k == "real" && !c.ov.harnesses[0].Real {
			continue
		}
		ro, err := c.replay(k, &w)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		fmt.Printf("%s: %s %s %v reproduces=%v\n%s\n%s\n", k, ro.Status, ro.Msg, ro.Fails, reproduces(&w, ro), ro.Stack, ro.raw)
		if reproduces(&w, ro) {
			rc = 1
		}
	}
	return rc
}

func solverDesc() string {
	if solverName == "z3" {
		return "z3-new 5.3.2, QF_BV; cvc5 1.1.2 when it gives up"
	}
	return "cvc5 1.1.2, QF_BV; z3-new 5.3.2 when it gives up"
}
