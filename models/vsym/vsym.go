// Package vsym declares the symbolic inputs and assertions of the
// verification harnesses. The symbolic executor interprets the functions of
// this file itself; the bodies below are what runs when a harness is compiled
// and executed natively to replay the inputs the solver found.
package vsym

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// RtError stands for runtime errors and formatted errors inside the executor.
type RtError struct{ Msg string }

func (e *RtError) Error() string { return e.Msg }
func (e *RtError) RuntimeError() {}

type inputVal struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}
type obsVal struct {
	N string   `json:"n"`
	V []uint64 `json:"v"`
}
type witness struct {
	Harness string     `json:"harness"`
	Tier    string     `json:"tier"`
	Inputs  []inputVal `json:"inputs"`
}
type outcome struct {
	Status  string   `json:"status"` // done, assert, panic, assume, mismatch
	Msg     string   `json:"msg"`
	Fails   []string `json:"fails"`
	Obs     []obsVal `json:"obs"`
	Reached []string `json:"reached"`
	Stack   string   `json:"stack"`
}

var (
	wit   witness
	pos   int
	out   outcome
	funcs = map[string]func(){}
)

type stop struct{}

func next(name string) uint64 {
	for pos < len(wit.Inputs) && (wit.Inputs[pos].N == "sched" || wit.Inputs[pos].N == "maporder") {
		pos++
	}
	if pos >= len(wit.Inputs) {
		finish("mismatch", "input "+name+" requested beyond the recorded ones")
	}
	in := wit.Inputs[pos]
	if in.N != name {
		finish("mismatch", "input "+name+" requested, recorded "+in.N)
	}
	pos++
	return in.V
}

func finish(status, msg string) {
	if len(out.Fails) > 0 {
		status = "assert"
		msg = out.Fails[0]
	}
	out.Status, out.Msg = status, msg
	b, _ := json.Marshal(&out)
	fmt.Fprintf(os.Stdout, "\n@@VSYM@@%s\n", b)
	os.Exit(0)
}

// Register names a harness for the replay binary.
func Register(name string, f func()) { funcs[name] = f }

// Main runs one recorded witness.
func Main() {
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &wit)
	}
	if err != nil {
		fmt.Println("bad witness:", err)
		os.Exit(3)
	}
	f := funcs[wit.Harness]
	if f == nil {
		fmt.Println("no such harness:", wit.Harness)
		os.Exit(3)
	}
	go func() {
		time.Sleep(50 * time.Second)
		finish("hang", "no result after 50 s")
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				out.Stack = string(debug.Stack())
				finish("panic", fmt.Sprint(r))
			}
		}()
		f()
	}()
	finish("done", "")
}

// Inputs.
func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }
func I64(name string) int64  { return int64(next(name)) }
func Bool(name string) bool  { return next(name) == 1 }
func Bytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(next(name))
	}
	return r
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int64) int64 { return int64(next(name)) }

// Choose is an arbitrary concrete integer in [0,n): every value is explored separately.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(uint32(next(name)))
}

// Conc explores every value of x separately.
func Conc(x int64) int64 { return x }

func Assume(b bool) {
	if !b {
		finish("assume", "an assumption does not hold")
	}
}
func Assert(b bool, msg string) {
	if !b {
		out.Fails = append(out.Fails, msg)
	}
}
func Reach(name string) { out.Reached = append(out.Reached, name) }
func Observe(name string, v uint64) {
	out.Obs = append(out.Obs, obsVal{name, []uint64{v}})
}
func ObserveBytes(name string, b []byte) {
	o := obsVal{N: name}
	for _, c := range b {
		o.V = append(o.V, uint64(c))
	}
	out.Obs = append(out.Obs, o)
}
func Thorough() bool { return wit.Tier == "thorough" }

// Symbolic is true inside the executor.
func Symbolic() bool { return false }

// Schedules lets the scheduler preempt the running goroutine up to n times.
func Schedules(n int) {}

// Delays lets the scheduler preempt the running goroutine up to n times, in
// favour of the next runnable one in the order of creation.
func Delays(n int) {}

// Policy sets which runnable goroutine runs: 0 each as long as it can, 1 the
// oldest (the youngest while main waits for a group), 2 main, otherwise the youngest.
func Policy(p int) {}

// MapOrder makes every map iteration order possible.
func MapOrder(b bool) {}

func IsConc(b []byte) bool { return true }

func BytesEq(a, b []byte) bool   { return bytes.Equal(a, b) }
func BytesLess(a, b []byte) bool { return bytes.Compare(a, b) < 0 }
func And(a, b bool) bool         { return a && b }
func Or(a, b bool) bool          { return a || b }
func Iff(a, b bool) bool         { return a == b }
func Implies(a, b bool) bool     { return !a || b }
func Sha256(b []byte) [32]byte   { return sha256.Sum256(b) }
func CloneBytes(b []byte) []byte { return append([]byte{}, b...) }

// OpaqueHash is a collision-free function of b with a short output.
func OpaqueHash(fn string, b []byte) (r [32]byte) {
	s := sha256.Sum256(append([]byte(fn+"|"), b...))
	copy(r[:4], s[:4])
	return
}
func IteI64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}

// LenAny and SwapAny work on a slice held in an interface (executor only).
func LenAny(x interface{}) int        { panic("executor only") }
func SwapAny(x interface{}, i, j int) { panic("executor only") }

// SortSlice replaces sort.Slice inside the executor: an insertion sort, whose
// result is one of the orders sort.Slice may produce.
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := LenAny(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			SwapAny(x, j, j-1)
		}
	}
}

// Panics runs f and reports whether it panicked, with the message.
func Panics(f func()) (bad bool) {
	defer func() {
		if r := recover(); r != nil {
			bad = true
		}
	}()
	f()
	return false
}

var _ = sort.Ints
var _ = strings.Split
