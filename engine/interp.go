package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Program holds the state shared by all workers.
type Program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by path
	mu       sync.Mutex
	funcs    map[*ssa.Function]*Func
	globals  map[*ssa.Global]int
	globList []*ssa.Global
	encoded  sync.Map // *ssa.Function name -> instruction count (functions symbolically executed)
	module   string
	msets    sync.Map
	funcs2   map[*ssa.Function]*Func
	byName   map[string]*Func
	codeIDs  map[*Func]uint64
}

type Func struct {
	p        *Program
	fn       *ssa.Function
	name     string
	once     sync.Once
	err      error
	nregs    int
	nparams  int
	nfree    int
	blocks   []*block
	recoverB int
	hasDefer bool
	intr     intrinsic
	inRepo   bool
	hstate   int8
	noRace   bool // not instrumented for races
	executed atomic.Bool
	ninstr   int
	pureMemo bool
}

type intrinsic func(in *Interp, fr *frame, args []Value) Value

type phi struct {
	dst int
	src opnd
}
type block struct {
	code []func(fr *frame)
	term func(fr *frame) int
	phis [][]phi // by predecessor index
	succ []int
	// for each successor: index of this block in its preds
	predIdx []int
	n       int64
}

type opnd struct {
	reg int
	c   Value
	g   int // global index when kind==2
	k   uint8
}

const (
	opReg uint8 = iota
	opConst
	opGlobal
)

func (o *opnd) get(fr *frame) Value {
	switch o.k {
	case opReg:
		return fr.env[o.reg]
	case opConst:
		return o.c
	}
	return fr.in.global(o.g)
}

type deferred struct {
	fn   Value
	args []Value
	iMth *Func
}

type frame struct {
	in        *Interp
	fn        *Func
	env       []Value
	caller    *frame
	defers    []deferred
	panicking bool
	pv        any
	result    Value
	blk       int
	done      bool
	depth     int
}

type targetPanic struct {
	v Iface
}

type goexit struct{}

// abortPath ends the current path.
type abortPath struct {
	kind string // "infeasible", "budget", "unsupported", "violation", "killed", "unknown"
	msg  string
}

type trailEnt struct {
	p   Ptr
	old Value
	m   *MapV
	f   func()
}

type Interp struct {
	p       *Program
	tc      *TermCtx
	sol     *Solver
	globals []Ptr
	inited  map[*ssa.Package]bool
	trailOn bool
	trail   []trailEnt
	epoch   int64
	steps   int64
	path    *pathState
	g       *goroutine
	gs      []*goroutine
	sched   bool
	racing  bool // more than one goroutine on this path
	once    map[string]Value
	memo    map[string]Value
	vfs     *vfs
	implC   map[[2]types.Type]bool
	mthC    map[mthKey]*Func
	ex      *Explorer
	wid     int
	slab    []Value
	sp      int
	native  map[string]any
	rtErrT  types.Type
	mapOrd  bool
	preempt int
	curFr   *frame
	tokens  []Value
	cfgBase pathCfg

	prov     map[*Term][]provRec
	provF    []provFRec
	smaps    map[Ptr]*MapV
	onces    map[Ptr]int
	tcache   map[string]types.Type
	vfsPath  *pathState
	memoBusy bool
}

// newInterp creates one worker.
func newInterp(p *Program, wid int, sol *Solver, tc *TermCtx) *Interp {
	return &Interp{p: p, wid: wid, tc: tc, sol: sol, inited: map[*ssa.Package]bool{}, once: map[string]Value{}, memo: map[string]Value{},
		implC: map[[2]types.Type]bool{}, mthC: map[mthKey]*Func{}, native: map[string]any{}, prov: map[*Term][]provRec{},
		smaps: map[Ptr]*MapV{}, onces: map[Ptr]int{}, tcache: map[string]types.Type{}, slab: make([]Value, 1<<14)}
}

type mthKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

// harness tells whether the function belongs to a harness file.
func (f *Func) harness() bool {
	if f.hstate == 0 {
		f.hstate = 1
		fn := f.fn
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if strings.HasPrefix(filepath.Base(fn.Prog.Fset.Position(fn.Pos()).Filename), "zz_") {
			f.hstate = 2
		}
	}
	return f.hstate == 2
}

func (p *Program) fnOf(f *ssa.Function) *Func {
	p.mu.Lock()
	defer p.mu.Unlock()
	if x, ok := p.funcs[f]; ok {
		return x
	}
	x := &Func{p: p, fn: f, name: f.String(), nparams: len(f.Params), nfree: len(f.FreeVars)}
	nm := x.name
	if o := f.Origin(); o != nil {
		nm = o.String()
	}
	x.intr = lookupIntrinsic(nm, f)
	x.inRepo = strings.Contains(nm, p.module) && !strings.Contains(nm, "/zzverif")
	x.pureMemo = pureMemoFuncs[nm]
	if f.Pkg != nil {
		pp := f.Pkg.Pkg.Path()
		x.noRace = pp == "runtime" || pp == "sync" || pp == "reflect" || strings.HasPrefix(pp, "sync/") || strings.HasPrefix(pp, "internal/") || strings.HasPrefix(pp, "runtime/")
	}
	p.funcs[f] = x
	if x.intr != nil {
		p.byName[nm] = x
	}
	return x
}

func (p *Program) globalIdx(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.globList)
	p.globList = append(p.globList, g)
	p.globals[g] = i
	return i
}

func (in *Interp) global(i int) Value {
	if i < len(in.globals) && in.globals[i] != nil {
		return in.globals[i]
	}
	in.p.mu.Lock()
	g := in.p.globList[i]
	n := len(in.p.globList)
	in.p.mu.Unlock()
	for len(in.globals) < n {
		in.globals = append(in.globals, nil)
	}
	in.allocGlobals(g.Pkg)
	in.ensureInit(g.Pkg)
	return in.globals[i]
}

// allocGlobals creates the cells of every global of the package.
func (in *Interp) allocGlobals(pkg *ssa.Package) {
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			idx := in.p.globalIdx(g)
			for len(in.globals) <= idx {
				in.globals = append(in.globals, nil)
			}
			if in.globals[idx] == nil {
				v := zero(g.Type().(*types.Pointer).Elem())
				in.globals[idx] = &v
			}
		}
	}
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "internal/poll": true, "time": false, "net": true, "net/http": false,
	"internal/godebug": true, "internal/cpu": true, "crypto/tls": true, "reflect": true, "internal/testlog": true,
	"os/exec": true, "testing": true, "log": true, "internal/syscall/unix": true, "vendor/golang.org/x/sys/cpu": true,
	"math/rand": true, "math/rand/v2": true, "text/template": true, "html/template": true, "encoding/json": true, "encoding/xml": false,
	"crypto/x509": true, "mime": true, "internal/reflectlite": true, "sync": true, "internal/bytealg": true,
	"golang.org/x/sys/cpu": true, "hash/crc32": true, "encoding/gob": true, "net/url": false, "context": false,
}

// ensureInit lazily runs a package's initialiser (imports are initialised when one of their globals is touched).
func (in *Interp) ensureInit(pkg *ssa.Package) {
	if in.inited[pkg] {
		return
	}
	in.inited[pkg] = true
	path := pkg.Pkg.Path()
	if skipInit[path] {
		in.customInit(path, pkg)
		return
	}
	pkg.Build()
	f := pkg.Func("init")
	if f == nil {
		return
	}
	// The initialiser runs outside the path: no trail, no decisions.
	saveSched := in.sched
	in.sched = false
	in.allocGlobals(pkg)
	in.outside(func() Value {
		in.callFn(in.p.fnOf(f), nil, nil)
		return nil
	})
	in.customInit(path, pkg)
	in.sched = saveSched
}

func (in *Interp) customInit(path string, pkg *ssa.Package) {
	set := func(name string, v Value) {
		if g := pkg.Var(name); g != nil {
			idx := in.p.globalIdx(g)
			*in.globals[idx] = v
		}
	}
	switch path {
	case "os":
		for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
			set(n, &Native{kind: "file", v: &vhandle{name: "/dev/" + strings.ToLower(n), wr: n != "Stdin", open: true}})
		}
		for _, n := range []string{"ErrNotExist", "ErrExist", "ErrInvalid", "ErrPermission"} {
			if g := in.p.pkgs["io/fs"]; g != nil {
				if gg := g.Var(n); gg != nil {
					set(n, copyVal(*(in.global(in.p.globalIdx(gg)).(Ptr))))
				}
			}
		}
	}
}

// store writes through a pointer with trail logging.
func (in *Interp) store(p Ptr, v Value) {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch x := v.(type) {
	case Struct:
		cur, ok := (*p).(Struct)
		if ok && len(cur) == len(x) {
			if len(cur) > 0 && &cur[0] == &x[0] {
				return
			}
			for i := range x {
				in.store(&cur[i], x[i])
			}
			return
		}
		in.setCell(p, copyVal(x))
		return
	case Array:
		cur, ok := (*p).(Array)
		if ok && len(cur) == len(x) {
			if len(cur) > 0 && &cur[0] == &x[0] {
				return
			}
			for i := range x {
				in.store(&cur[i], x[i])
			}
			return
		}
		in.setCell(p, copyVal(x))
		return
	}
	in.setCell(p, v)
}

func (in *Interp) setCell(p Ptr, v Value) {
	if in.trailOn {
		in.trail = append(in.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

func (in *Interp) onUndo(f func()) {
	if in.trailOn {
		in.trail = append(in.trail, trailEnt{f: f})
	}
}

func (in *Interp) rollback() {
	for i := len(in.trail) - 1; i >= 0; i-- {
		e := &in.trail[i]
		if e.p != nil {
			*e.p = e.old
		} else if e.f != nil {
			e.f()
		}
		*e = trailEnt{}
	}
	in.trail = in.trail[:0]
}

func (in *Interp) load(v Value) Value {
	switch p := v.(type) {
	case Ptr:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		x := *p
		switch x.(type) {
		case Struct, Array:
			return copyVal(x)
		}
		return x
	case SymPtr:
		return in.symIndex(p.s, p.idx)
	case UPtr:
		return in.load(p.v)
	}
	panic(unsupported(fmt.Sprintf("load from %T", v)))
}

// rtPanic raises a Go runtime error in the program under analysis.
func (in *Interp) rtPanic(msg string) {
	panic(targetPanic{v: in.runtimeError(msg)})
}

func (in *Interp) runtimeError(msg string) Iface {
	if in.rtErrT == nil {
		if p := in.p.pkgs["runtime"]; p != nil {
			if t := p.Type("errorString"); t != nil {
				in.rtErrT = canon(t.Type())
			}
		}
	}
	return Iface{t: in.rtErrT, v: msg}
}

const maxDepth = 1200

// callFn invokes a function; args are copied into the callee's registers.
func (in *Interp) callFn(f *Func, args []Value, free []Value) Value {
	if f.intr != nil {
		return f.intr(in, in.curFr, args)
	}
	if f.pureMemo {
		if v, ok := in.memoCall(f, args); ok {
			return v
		}
	}
	f.once.Do(f.compile)
	if f.err != nil {
		panic(unsupported(f.err.Error()))
	}
	if in.path != nil && !f.executed.Load() {
		f.executed.Store(true)
		in.p.encoded.Store(f, true)
	}
	n := f.nregs
	var env []Value
	base := in.sp
	if base+n > len(in.slab) {
		sz := 1 << 14
		if n > sz {
			sz = n
		}
		in.slab = make([]Value, sz)
		base = 0
		in.sp = 0
	}
	slab := in.slab
	env = slab[base : base+n : base+n]
	in.sp = base + n
	copy(env, args)
	copy(env[f.nparams:], free)
	fr := frame{in: in, fn: f, env: env, caller: in.curFr}
	if in.curFr != nil {
		fr.depth = in.curFr.depth + 1
		if fr.depth > maxDepth {
			in.stackOverflow()
		}
	}
	save := in.curFr
	in.curFr = &fr
	if !f.hasDefer {
		in.run(&fr)
	} else {
		for !fr.done {
			in.runDeferring(&fr)
		}
	}
	in.curFr = save
	// the slab may have been replaced by a deeper call; only rewind when it is still ours
	in.slab = slab
	in.sp = base
	for i := range env {
		env[i] = nil
	}
	return fr.result
}

func (in *Interp) stackOverflow() {
	in.violationNow("crash", "stack overflow (unbounded recursion)")
}

func (in *Interp) run(fr *frame) {
	f := fr.fn
	cur := fr.blk
	for {
		b := f.blocks[cur]
		in.steps += b.n
		if in.path != nil && in.steps > in.path.budget {
			panic(abortPath{"budget", fmt.Sprintf("step budget exceeded in %s", f.name)})
		}
		for _, ins := range b.code {
			ins(fr)
		}
		nx := b.term(fr)
		if nx < 0 {
			fr.done = true
			return
		}
		t := b.succ[nx]
		nb := f.blocks[t]
		if nb.phis != nil {
			ph := nb.phis[b.predIdx[nx]]
			switch len(ph) {
			case 0:
			case 1:
				fr.env[ph[0].dst] = ph[0].src.get(fr)
			default:
				var tmp [8]Value
				tv := tmp[:0]
				for i := range ph {
					tv = append(tv, ph[i].src.get(fr))
				}
				for i := range ph {
					fr.env[ph[i].dst] = tv[i]
				}
			}
		}
		cur = t
	}
}

// runDeferring runs a frame that has defers, catching target panics.
func (in *Interp) runDeferring(fr *frame) {
	slab, sp := in.slab, in.sp
	normal := false
	defer func() {
		if normal {
			return
		}
		r := recover()
		switch p := r.(type) {
		case targetPanic:
			in.curFr = fr
			in.slab, in.sp = slab, sp
			fr.panicking = true
			fr.pv = p
			in.runDefers(fr)
			if fr.panicking {
				panic(fr.pv)
			}
			// recovered
			if fr.fn.recoverB >= 0 {
				fr.blk = fr.fn.recoverB
				return // outer loop re-enters
			}
			fr.result = in.zeroResult(fr.fn)
			fr.done = true
		case goexit:
			in.curFr = fr
			in.slab, in.sp = slab, sp
			fr.panicking = true
			fr.pv = p
			in.runDefers(fr)
			panic(fr.pv)
		default:
			panic(r)
		}
	}()
	in.run(fr)
	normal = true
}

func (in *Interp) zeroResult(f *Func) Value {
	r := f.fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		in.runOneDefer(fr, d)
	}
}

func (in *Interp) runOneDefer(fr *frame, d deferred) {
	ok := false
	slab, sp := in.slab, in.sp
	defer func() {
		if ok {
			return
		}
		r := recover()
		switch r.(type) {
		case targetPanic, goexit:
			// a deferred call panicked: replaces the current panic, remaining defers still run
			in.curFr = fr
			in.slab, in.sp = slab, sp
			fr.panicking = true
			fr.pv = r
			in.runDefers(fr)
		default:
			panic(r)
		}
	}()
	in.callValue(d.fn, d.args)
	ok = true
}

// callValue calls any function value.
func (in *Interp) callValue(f Value, args []Value) Value {
	switch c := f.(type) {
	case *Func:
		return in.callFn(c, args, nil)
	case *Closure:
		if c == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.callFn(c.fn, args, c.env)
	case *NativeFn:
		return c.f(in, args)
	}
	panic(unsupported(fmt.Sprintf("call of %T", f)))
}

// findMethod resolves a method by name on a dynamic type.
func (in *Interp) findMethod(t types.Type, name string, pkg *types.Package) *Func {
	k := mthKey{t, name, nil}
	if !isExported(name) {
		k.pkg = pkg
	}
	if f, ok := in.mthC[k]; ok {
		return f
	}
	ms := in.p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		in.mthC[k] = nil
		return nil
	}
	fn := in.p.prog.MethodValue(sel)
	f := in.p.fnOf(fn)
	in.mthC[k] = f
	return f
}

func isExported(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

func (in *Interp) implements(t types.Type, iface types.Type) bool {
	k := [2]types.Type{t, iface}
	if b, ok := in.implC[k]; ok {
		return b
	}
	b := types.Implements(t, iface.Underlying().(*types.Interface))
	in.implC[k] = b
	return b
}

func (in *Interp) callMethod(recv Iface, name string, args ...Value) Value {
	if recv.t == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	f := in.findMethod(recv.t, name, nil)
	if f == nil {
		panic(unsupported("no method " + name + " on " + recv.t.String()))
	}
	return in.callFn(f, append([]Value{recv.v}, args...), nil)
}
