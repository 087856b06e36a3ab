// Package sym is the interface between harnesses and the symbolic execution engine.
//
// Under the engine these functions create symbolic values and solver assertions. Compiled natively, as here, they
// replay one assignment of the inputs, so that a counterexample found by the solver runs against the real code.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/signal"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Input struct {
	N string `json:"n"`
	K string `json:"k"`
	V string `json:"v"`
}

type Case struct {
	Harness string  `json:"harness"`
	Inputs  []Input `json:"inputs"`
	Repeat  int     `json:"repeat"`
	Stress  bool    `json:"stress"`
	Kind    string  `json:"kind"`
	Finding string  `json:"finding"`
	Msg     string  `json:"msg"`
	Tier    int     `json:"tier"`
}

type Failure struct {
	Kind    string `json:"kind"`
	Finding string `json:"finding"`
	Msg     string `json:"msg"`
}

type Result struct {
	Case     int       `json:"case"`
	Harness  string    `json:"harness"`
	Observes []Input   `json:"observes"`
	Fails    []Failure `json:"fails"`
	Asserts  int       `json:"asserts"`
	Skipped  bool      `json:"skipped"`
	Diverged string    `json:"diverged"`
	Rep      int       `json:"rep"`
}

var registry = map[string]func(){}

// Register makes a harness available for replay.
func Register(name string, f func()) { registry[name] = f }

type endPath struct{ why string }

var mu sync.Mutex
var cur struct {
	c       *Case
	pos     int
	res     *Result
	tmp     []string
	limited bool
	stress  bool
	pid     string
	ptext   string
}

func next(name, kind string) string {
	mu.Lock()
	defer mu.Unlock()
	if cur.c == nil {
		panic("sym: no replay in progress")
	}
	if cur.pos >= len(cur.c.Inputs) {
		cur.res.Diverged = "no more inputs at " + name
		return dflt(kind)
	}
	in := cur.c.Inputs[cur.pos]
	cur.pos++
	if in.N != name || in.K != kind {
		cur.res.Diverged = fmt.Sprintf("wanted input %s:%s, recorded %s:%s", name, kind, in.N, in.K)
		return dflt(kind)
	}
	return in.V
}

// dflt is the value of an input that is missing because the replay took another way (a panic would kill the process if it
// happened in another goroutine).
func dflt(kind string) string {
	switch kind {
	case "bool":
		return "false"
	case "str":
		return strconv.Quote("")
	}
	return "0"
}

func num(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next(name, "bool") == "true" }

// Int is an arbitrary integer of [lo,hi].
func Int(name string, lo, hi int) int { return int(num(next(name, "int"))) }

// Byte is an arbitrary byte of [lo,hi].
func Byte(name string, lo, hi byte) byte { return byte(num(next(name, "byte"))) }

// Float is an arbitrary float64, including NaN and the infinities.
func Float(name string) float64 {
	u, err := strconv.ParseUint(strings.TrimPrefix(next(name, "float"), "0x"), 16, 64)
	if err != nil {
		panic(err)
	}
	return math.Float64frombits(u)
}

// Choose is a case split: every value of [0,n) is explored.
func Choose(name string, n int) int { return int(num(next(name, "int"))) }

// StrN is an arbitrary string of n bytes of [lo,hi].
func StrN(name string, n int, lo, hi byte) string {
	s, err := strconv.Unquote(next(name, "str"))
	if err != nil {
		panic(err)
	}
	return s
}

// StrIn is an arbitrary string of 0 to max bytes of [lo,hi].
func StrIn(name string, max int, lo, hi byte) string { return StrN(name, max, lo, hi) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		mu.Lock()
		cur.res.Skipped = true
		mu.Unlock()
		panic(endPath{"assume"})
	}
}

// Skip abandons the path.
func Skip() { Assume(false) }

func fail(kind, finding, msg string) {
	mu.Lock()
	defer mu.Unlock()
	cur.res.Fails = append(cur.res.Fails, Failure{kind, finding, msg})
}

// Assert is the property.
func Assert(c bool, msg string) {
	mu.Lock()
	cur.res.Asserts++
	mu.Unlock()
	if !c {
		fail("assert", "", msg)
	}
}

// Finding is an assertion which is identified as a recorded finding when it fails.
func Finding(id string, c bool, msg string) {
	mu.Lock()
	cur.res.Asserts++
	mu.Unlock()
	if !c {
		fail("assert", id, msg)
	}
}

// PanicFinding identifies a panic with the text, from here on, as a recorded finding.
func PanicFinding(id, text string) { cur.pid, cur.ptext = id, text }

// Fail is an assertion that never holds.
func Fail(msg string) {
	fail("assert", "", msg)
	panic(endPath{"fail"})
}

// Reach is a reachability witness.
func Reach(tag string) {}

// Observe records an output that the engine and the real code must agree on.
func Observe(tag, v string) {
	mu.Lock()
	defer mu.Unlock()
	cur.res.Observes = append(cur.res.Observes, Input{tag, "obs", strconv.Quote(v)})
}

var onces = map[string]any{}

// Once evaluates f once per case (the engine once per worker).
func Once[T any](key string, f func() T) T {
	if v, ok := onces[key]; ok {
		return v.(T)
	}
	v := f()
	onces[key] = v
	return v
}

// MapOrder makes the iteration order of the maps ranged over by the repository a choice: 0 insertion order,
// 1 every order of maps up to max entries, 2 insertion order or its reverse, 3 the same chosen at every loop.
func MapOrder(mode, max int) {}

// Schedule turns on goroutine scheduling with the given number of preemptions.
func Schedule(preempt int) {}

// Yield is a scheduling point.
func Yield() {
	if cur.stress {
		if time.Now().UnixNano()%3 == 0 {
			time.Sleep(time.Duration(time.Now().UnixNano()%50) * time.Microsecond)
		}
		runtime.Gosched()
	}
}

// Tier is 0 in the quick check and 1 in the thorough one.
func Tier() int { return cur.c.Tier }

// TempDir is a fresh empty directory.
func TempDir() string {
	d, err := os.MkdirTemp("", "verifsym")
	if err != nil {
		panic(err)
	}
	mu.Lock()
	cur.tmp = append(cur.tmp, d)
	mu.Unlock()
	return d
}

// FileLimit makes every file of the system hold at most n bytes: writing more fails, as on a full disk, after the
// bytes that still have room. A negative n lifts the limit.
func FileLimit(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	mu.Lock()
	cur.limited = n >= 0
	mu.Unlock()
}

// Budget bounds the number of instructions of the rest of the path.
func Budget(n int) {}

// And, Or, Not and Iff do not fork.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Not(c bool) bool    { return !c }
func Iff(a, b bool) bool { return a == b }

// Equal compares deeply without forking.
func Equal(a, b any) bool { return reflect.DeepEqual(a, b) }

func runCase(i int, c *Case, rep int) (res *Result) {
	res = &Result{Case: i, Harness: c.Harness, Rep: rep}
	cur.c, cur.pos, cur.res, cur.stress, cur.pid = c, 0, res, c.Stress, ""
	onces = map[string]any{}
	defer func() {
		for _, d := range cur.tmp {
			os.RemoveAll(d)
		}
		cur.tmp = nil
		if cur.limited {
			FileLimit(-1)
		}
	}()
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil, endPath:
		default:
			if os.Getenv("VERIF_STACK") != "" {
				debug.PrintStack()
			}
			msg, id := fmt.Sprintf("uncaught panic: %v", x), ""
			if cur.pid != "" && strings.Contains(msg, cur.ptext) {
				id = cur.pid
			}
			res.Fails = append(res.Fails, Failure{"panic", id, msg})
		}
	}()
	h, ok := registry[c.Harness]
	if !ok {
		res.Diverged = "no harness " + c.Harness
		return res
	}
	h()
	return res
}

// ReplayMain replays the cases of a file and prints one result per line.
func ReplayMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var cases []*Case
	if err := json.Unmarshal(b, &cases); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := os.NewFile(3, "results")
	if os.Getenv("VERIF_OUT") == "" {
		out = os.Stdout
	}
	enc := json.NewEncoder(out)
	for i, c := range cases {
		n := c.Repeat
		if n < 1 {
			n = 1
		}
		var res *Result
		for k := 0; k < n; k++ {
			res = runCase(i, c, k)
			hit := false
			for _, f := range res.Fails {
				if f.Kind == c.Kind && f.Finding == c.Finding && (f.Msg == c.Msg || c.Kind == "panic") {
					hit = true
				}
			}
			if hit {
				break
			}
		}
		enc.Encode(res)
	}
}
