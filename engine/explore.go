package main

import (
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// dec is one recorded decision of a path: a branch direction, a concretised value or a choice.
// h identifies the question that was asked, to detect a replay that leaves its prefix.
type dec struct{ v, h uint64 }

type inRec struct {
	Name string
	Kind string // bool int float str choose
	v    Value
}

type obsRec struct {
	Tag string
	v   Value
}

type pathState struct {
	prefix      []dec
	trace       []dec
	pc          []*Term
	lits        map[int32]bool
	model       Model
	budget      int64
	mapOrder    int
	mapOrderMax int
	mapRev      bool
	inputs      []inRec
	observes    []obsRec
	names       map[string]int
	reached     map[string]bool
	asserts     int
	forks       int
	pending     any // abort raised on another goroutine
	preempt     int
	panicID     string // finding that a panic with panicText is
	panicText   string
	concurrent  bool
	locks       map[Ptr]*lockSt
	wgs         map[Ptr]*wgSt
	races       map[*MapV]*raceSt
	mraces      map[Ptr]*raceSt
	pools       map[Ptr][]Value
	incomplete  []string
	tmp         int
	schedTrace  []int
	ordered     bool // an order choice was made
}

type pathCfg struct {
	budget int64
}

type workItem struct {
	prefix []dec
	model  Model
}

// Violation is a counterexample found by the solver (before native replay).
type Violation struct {
	Harness string     `json:"harness"`
	Kind    string     `json:"kind"`
	Finding string     `json:"finding,omitempty"`
	Msg     string     `json:"msg"`
	Inputs  []InputVal `json:"inputs"`
	Order   bool       `json:"order"`
	Sched   []int      `json:"sched,omitempty"`
	Where   string     `json:"where,omitempty"`
}

type InputVal struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	Val  string `json:"v"`
}

// Sample is a completed path with a model, replayed natively to validate the encoding.
type Sample struct {
	Harness  string     `json:"harness"`
	Inputs   []InputVal `json:"inputs"`
	Observes []InputVal `json:"observes"`
	Order    bool       `json:"-"`
	Conc     bool       `json:"-"`
}

// Explorer explores all the paths of one harness.
type Explorer struct {
	harness    string
	fn         *Func
	mu         sync.Mutex
	cond       *sync.Cond
	stack      []workItem
	active     int
	stop       bool
	deadline   time.Time
	maxViol    int
	tier       int
	paths      int64
	pops       int64
	infeasible int64
	forks      int64
	steps      int64
	asserts    int64
	viol       []*Violation
	violKey    map[string]int
	incomplete map[string]int64
	reached    map[string]int64
	samples    []*Sample
	maxSamples int
	timedOut   bool
	left       int
	budget     int64
	prop       string
	inputNames map[string]bool
	known      map[string]bool
	queries    int64
	wall       float64
	forkAt     map[string]int
}

// profForks asks for the places where paths fork.
var profForks = os.Getenv("VERIF_FORKS") != ""

func newExplorer(h string, fn *Func) *Explorer {
	ex := &Explorer{harness: h, fn: fn, violKey: map[string]int{}, incomplete: map[string]int64{}, reached: map[string]int64{}, inputNames: map[string]bool{}, forkAt: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.stack = []workItem{{}}
	ex.maxViol = 6
	ex.maxSamples = 24
	ex.budget = 30_000_000
	return ex
}

func (ex *Explorer) pop() (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return workItem{}, false
		}
		if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			if len(ex.stack) > 0 || ex.active > 0 {
				ex.timedOut = true
				ex.left = len(ex.stack)
			}
			ex.stop = true
			ex.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(ex.stack); n > 0 {
			// depth first, but every eighth time any state and every eighth time the one decided first, so that a time
			// limit does not starve a whole subtree
			ex.pops++
			i := n - 1
			switch ex.pops % 8 {
			case 0:
				i = int(uint64(ex.pops) * 0x9e3779b97f4a7c15 >> 33 % uint64(n))
			case 4:
				for j := range ex.stack {
					if len(ex.stack[j].prefix) < len(ex.stack[i].prefix) {
						i = j
					}
				}
			}
			w := ex.stack[i]
			ex.stack[i] = ex.stack[n-1]
			ex.stack = ex.stack[:n-1]
			ex.active++
			return w, true
		}
		if ex.active == 0 {
			ex.stop = true
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) push(w workItem) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, w)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

// ---- decisions ----

// replayed returns the recorded answer to question h, when the path is still in its prefix.
func (p *pathState) replayed(h uint64) (dec, bool) {
	i := len(p.trace)
	if i >= len(p.prefix) {
		return dec{}, false
	}
	d := p.prefix[i]
	if d.h != h {
		panic(unsupported("the replay of a path prefix diverged"))
	}
	p.trace = append(p.trace, d)
	return d, true
}

func (in *Interp) alt(v, h uint64, m Model) {
	p := in.path
	pre := make([]dec, len(p.trace)+1)
	copy(pre, p.trace)
	pre[len(p.trace)] = dec{v, h}
	p.forks++
	if verbose && profForks {
		in.ex.mu.Lock()
		in.ex.forkAt[in.stackStr(4)]++
		in.ex.mu.Unlock()
	}
	in.ex.push(workItem{prefix: pre, model: m})
}

func (in *Interp) addPC(t *Term) {
	p := in.path
	if t.isConst() {
		return
	}
	in.lit(t)
	p.pc = append(p.pc, t)
}

func (in *Interp) lit(t *Term) {
	p := in.path
	if t.op == ONot {
		p.lits[t.a.id] = false
	} else {
		p.lits[t.id] = true
	}
	if t.op == OAnd {
		in.lit(t.a)
		in.lit(t.b)
	}
	if t.op == ONot && t.a.op == OOr {
		in.lit(in.tc.Not(t.a.a))
		in.lit(in.tc.Not(t.a.b))
	}
}

func (in *Interp) known(t *Term) (bool, bool) {
	if t.op == ONot {
		v, ok := in.path.lits[t.a.id]
		return !v, ok
	}
	v, ok := in.path.lits[t.id]
	return v, ok
}

func mergeModel(base, over Model) Model {
	m := make(Model, len(base)+len(over))
	for k, v := range base {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

func (in *Interp) decide(t *Term) bool {
	if t.isConst() {
		return t.val == 1
	}
	p := in.path
	if p == nil {
		panic(unsupported("decision outside of a path"))
	}
	if v, ok := in.known(t); ok {
		if debugModel && v != (in.tc.Eval(t, p.model) == 1) {
			fmt.Println("DEBUG known mismatch", v, in.tc.String(t), in.stackStr(3))
		}
		return v
	}
	if d, ok := p.replayed(t.h); ok {
		v := d.v&1 == 1
		if debugModel && v != (in.tc.Eval(t, p.model) == 1) {
			fmt.Println("DEBUG prefix mismatch", v, d.v, len(p.trace), len(p.prefix), in.tc.String(t), in.stackStr(3))
		}
		if d.v&2 == 0 { // not forced
			if v {
				in.addPC(t)
			} else {
				in.addPC(in.tc.Not(t))
			}
		} else {
			in.rememberForced(t, v)
		}
		return v
	}
	in.checkDeadline()
	v := in.tc.Eval(t, p.model) == 1
	side, other := t, in.tc.Not(t)
	if !v {
		side, other = other, side
	}
	st, m := in.sol.Check(p.pc, other)
	if st == 1 {
		// note: the alternate's trace entry is "not forced"
		in.alt(b2u(!v), t.h, mergeModel(p.model, m))
		in.addPC(side)
		p.trace = append(p.trace, dec{b2u(v), t.h})
		return v
	}
	if st == 0 {
		in.rememberForced(t, v)
		p.trace = append(p.trace, dec{b2u(v) | 2, t.h})
		return v
	}
	if debugModel {
		fmt.Println("DEBUG unknown", in.tc.String(t))
	}
	p.incomplete = append(p.incomplete, "solver unknown at a branch in "+in.stackStr(4))
	in.addPC(side)
	p.trace = append(p.trace, dec{b2u(v), t.h})
	return v
}

func (in *Interp) rememberForced(t *Term, v bool) {
	if t.op == ONot {
		in.path.lits[t.a.id] = !v
	} else {
		in.path.lits[t.id] = v
	}
}

func (in *Interp) checkDeadline() {
	ex := in.ex
	if ex == nil || ex.deadline.IsZero() {
		return
	}
	if time.Now().After(ex.deadline) {
		ex.mu.Lock()
		ex.timedOut = true
		ex.mu.Unlock()
		panic(abortPath{"deadline", "time limit"})
	}
}

var debugModel = os.Getenv("VERIF_DEBUG") != ""

const maxConc = 300

// concTerm makes a bit-vector term concrete: one path per feasible value.
func (in *Interp) concTerm(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	p := in.path
	if p == nil {
		panic(unsupported("concretisation outside of a path"))
	}
	eq := func(v uint64) *Term {
		if t.kind == KBool {
			if v == 1 {
				return t
			}
			return in.tc.Not(t)
		}
		return in.tc.Eq(t, in.tc.BV(v, t.w))
	}
	h := mix(t.h, 77)
	if d, ok := p.replayed(h); ok {
		in.addPC(eq(d.v))
		return d.v
	}
	if debugModel {
		fmt.Println("DEBUG conc", in.tc.String(t), in.stackStr(3))
	}
	in.checkDeadline()
	v0 := in.tc.Eval(t, p.model)
	pc := append([]*Term(nil), p.pc...)
	ne := in.tc.Not(eq(v0))
	n := 0
	for {
		st, m := in.sol.Check(pc, ne)
		if st == 0 {
			break
		}
		if st < 0 {
			if debugModel {
				fmt.Println("DEBUG unknown conc", in.tc.String(t))
			}
			p.incomplete = append(p.incomplete, "solver unknown while enumerating a value in "+in.stackStr(4))
			break
		}
		mm := mergeModel(p.model, m)
		v := in.tc.Eval(t, mm)
		in.alt(v, h, mm)
		pc = append(pc, ne)
		ne = in.tc.Not(eq(v))
		n++
		if n >= maxConc {
			p.incomplete = append(p.incomplete, "more than "+strconv.Itoa(maxConc)+" feasible values at a concretisation")
			break
		}
	}
	in.addPC(eq(v0))
	p.trace = append(p.trace, dec{v0, h})
	return v0
}

func (in *Interp) concTermF(t *Term) uint64 {
	panic(unsupported("concretisation of a floating-point term"))
}

// choose is a case split without a condition.
func (in *Interp) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	p := in.path
	if p == nil {
		return 0
	}
	if strings.HasPrefix(name, "maporder") || name == "sched" {
		p.ordered = true
	}
	h := mix(hashStr(name), uint64(n))
	if d, ok := p.replayed(h); ok {
		return int(d.v)
	}
	for k := n - 1; k >= 1; k-- {
		in.alt(uint64(k), h, p.model)
	}
	p.trace = append(p.trace, dec{0, h})
	return 0
}

// assume restricts the path.
func (in *Interp) assume(v Value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(abortPath{"infeasible", "assume"})
		}
	case *Term:
		p := in.path
		if k, ok := in.known(c); ok {
			if !k {
				panic(abortPath{"infeasible", "assume"})
			}
			return
		}
		h := mix(c.h, 78)
		if _, ok := p.replayed(h); ok {
			in.addPC(c)
			return
		}
		if in.tc.Eval(c, p.model) != 1 {
			st, m := in.sol.Check(p.pc, c)
			if st == 0 {
				panic(abortPath{"infeasible", "assume"})
			}
			if st < 0 {
				panic(abortPath{"unknown", "solver unknown at an assumption"})
			}
			p.model = mergeModel(p.model, m)
		}
		in.addPC(c)
		p.trace = append(p.trace, dec{1, h})
	}
}

// assertV checks that a condition holds on every input of the path.
func (in *Interp) assertV(v Value, finding, msg string) {
	p := in.path
	p.asserts++
	switch c := v.(type) {
	case bool:
		if !c {
			in.violate("assert", finding, msg, p.model)
		}
	case *Term:
		if k, ok := in.known(c); ok && k {
			return
		}
		h := mix(c.h, 79)
		if d, ok := p.replayed(h); ok {
			// already decided on an earlier visit of this prefix: the passing side continues
			if d.v&2 != 0 {
				in.rememberForced(c, true)
			} else {
				in.addPC(c)
			}
			return
		}
		bad := in.tc.Not(c)
		st, m := in.sol.Check(p.pc, bad)
		switch st {
		case 1:
			in.record("assert", finding, msg, mergeModel(p.model, m))
			// continue on the side where it holds, if any
			st2, m2 := in.sol.Check(p.pc, c)
			if st2 != 1 {
				panic(abortPath{"violation", msg})
			}
			p.model = mergeModel(p.model, m2)
		case -1:
			if debugModel {
				fmt.Println("DEBUG unknown assert", in.tc.String(c))
			}
			p.incomplete = append(p.incomplete, "solver unknown at assertion: "+msg)
		case 0:
			in.rememberForced(c, true)
			p.trace = append(p.trace, dec{3, h})
			return
		}
		in.addPC(c)
		p.trace = append(p.trace, dec{1, h})
	}
}

func (in *Interp) violationNow(kind, msg string) {
	if in.path == nil {
		panic(unsupported("violation outside of a path: " + msg))
	}
	in.violate(kind, "", msg, in.path.model)
}

func (in *Interp) violate(kind, finding, msg string, m Model) {
	in.record(kind, finding, msg, m)
	panic(abortPath{"violation", msg})
}

func (in *Interp) record(kind, finding, msg string, m Model) {
	p := in.path
	v := &Violation{Harness: in.ex.harness, Kind: kind, Finding: finding, Msg: msg, Order: p.ordered, Sched: append([]int(nil), p.schedTrace...)}
	v.Inputs = in.inputVals(p, m)
	if in.curFr != nil {
		v.Where = in.stackStr(6)
	}
	ex := in.ex
	ex.mu.Lock()
	key := kind + "|" + finding + "|" + msg
	ex.violKey[key]++
	if ex.violKey[key] <= 3 {
		ex.viol = append(ex.viol, v)
	}
	nk := 0
	for k, n := range ex.violKey {
		f := strings.SplitN(k, "|", 3)[1]
		if !ex.known[f] || f == "" {
			nk += n
		}
	}
	if nk >= 40 {
		ex.stop = true
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (in *Interp) stackStr(n int) string {
	var out []string
	for fr := in.curFr; fr != nil && len(out) < n; fr = fr.caller {
		out = append(out, fr.fn.name)
	}
	return strings.Join(out, " < ")
}

func (in *Interp) inputVals(p *pathState, m Model) []InputVal {
	out := make([]InputVal, 0, len(p.inputs))
	for _, r := range p.inputs {
		val := in.render(r.v, m, r.Kind)
		if r.Kind == "str" {
			val = strconv.Quote(val)
		}
		out = append(out, InputVal{Name: r.Name, Kind: r.Kind, Val: val})
	}
	return out
}

// render evaluates a value under a model.
func (in *Interp) render(v Value, m Model, kind string) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, e := range x.b {
			switch y := e.(type) {
			case uint64:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(in.tc.Eval(y, m))
			}
		}
		return string(b)
	case bool:
		return strconv.FormatBool(x)
	case uint64:
		return strconv.FormatInt(int64(x), 10)
	case float64:
		return "0x" + strconv.FormatUint(math.Float64bits(x), 16)
	case *Term:
		u := in.tc.Eval(x, m)
		switch x.kind {
		case KBool:
			return strconv.FormatBool(u == 1)
		case KFP:
			return "0x" + strconv.FormatUint(u, 16)
		}
		if kind == "byte" {
			return strconv.FormatUint(u, 10)
		}
		return strconv.FormatInt(sx(u, x.w), 10)
	}
	return fmt.Sprintf("%v", v)
}

// runPath executes one path of the harness.
func (in *Interp) runPath(ex *Explorer, w workItem) {
	m := w.model
	if m == nil {
		m = Model{}
	}
	p := &pathState{prefix: w.prefix, lits: map[int32]bool{}, model: m, budget: ex.budget, names: map[string]int{}, reached: map[string]bool{},
		locks: map[Ptr]*lockSt{}, wgs: map[Ptr]*wgSt{}, races: map[*MapV]*raceSt{}, mapOrderMax: 3}
	in.path = p
	in.ex = ex
	in.epoch++
	in.trailOn = true
	in.steps = 0
	in.curFr = nil
	in.sp = 0
	in.sched = false
	in.racing = false
	in.prov = map[*Term][]provRec{}
	in.provF = nil
	in.provF = nil
	main := &goroutine{id: 0, ch: make(chan int), in: in, started: true}
	in.g = main
	in.gs = []*goroutine{main}
	kind, msg := "ok", ""
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case abortPath:
				kind, msg = x.kind, x.msg
			case targetPanic:
				in.recordPanic(x)
				kind = "violation"
			case goexit:
				kind = "ok"
			case unsupported:
				kind, msg = "unsupported", string(x)+" in "+in.stackStr(4)
			default:
				kind = "unsupported"
				msg = fmt.Sprintf("engine: %v in %s", r, in.stackStr(5))
				if verbose {
					debug.PrintStack()
				}
			}
		}()
		in.callFn(ex.fn, nil, nil)
	}()
	in.killAll()
	ex.mu.Lock()
	ex.steps += in.steps
	ex.forks += int64(p.forks)
	ex.asserts += int64(p.asserts)
	switch kind {
	case "ok":
		ex.paths++
	case "infeasible":
		ex.infeasible++
	case "violation":
		ex.paths++
	default:
		ex.paths++
		ex.incomplete[kind+": "+msg]++
	}
	for _, s := range p.incomplete {
		ex.incomplete[s]++
	}
	for k := range p.reached {
		ex.reached[k]++
	}
	for _, i := range p.inputs {
		ex.inputNames[i.Name+":"+i.Kind] = true
	}
	take := kind == "ok" && (len(ex.samples) < ex.maxSamples || ex.paths%97 == 0 && len(ex.samples) < 3*ex.maxSamples)
	ex.mu.Unlock()
	if take {
		s := &Sample{Harness: ex.harness, Inputs: in.inputVals(p, p.model), Order: p.ordered, Conc: p.concurrent}
		for _, o := range p.observes {
			s.Observes = append(s.Observes, InputVal{Name: o.Tag, Kind: "obs", Val: strconv.Quote(in.render(o.v, p.model, ""))})
		}
		ex.mu.Lock()
		ex.samples = append(ex.samples, s)
		ex.mu.Unlock()
	}
	in.rollback()
	in.trailOn = false
	in.path = nil
	in.g = nil
	in.curFr = nil
	for i := range in.slab {
		in.slab[i] = nil
	}
	in.sp = 0
}

func (in *Interp) recordPanic(x targetPanic) {
	msg := in.panicStr(x.v)
	id := ""
	if p := in.path; p.panicID != "" && strings.Contains(msg, p.panicText) {
		id = p.panicID
	}
	in.record("panic", id, "uncaught panic: "+msg, in.path.model)
}

func (in *Interp) panicStr(v Iface) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case string:
		return x
	}
	r := in.fmtValue(v, 'v', fmtFlags{})
	if c, ok := r.(string); ok {
		return c
	}
	return in.render(r, in.path.model, "")
}

// ---- driver ----

func (ex *Explorer) run(workers []*Interp, nw int) {
	var wg sync.WaitGroup
	for i := 0; i < nw && i < len(workers); i++ {
		wg.Add(1)
		go func(in *Interp) {
			defer wg.Done()
			q0 := in.sol.Queries
			for {
				w, ok := ex.pop()
				if !ok {
					break
				}
				in.runPath(ex, w)
				ex.done()
				if len(in.tc.byID) > 1_500_000 {
					in.resetTerms()
				}
			}
			ex.mu.Lock()
			ex.queries += in.sol.Queries - q0
			ex.mu.Unlock()
		}(workers[i])
	}
	wg.Wait()
}

func (in *Interp) resetTerms() {
	in.tc = newTermCtx()
	old := in.sol
	old.stop()
	old.ctx = in.tc
	old.cache = map[string]*qres{}
	in.prov = map[*Term][]provRec{}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
