package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the program under analysis are host goroutines passing a baton, so that exactly one runs at a time
// and every switch is an explorer choice.
type goroutine struct {
	id      int
	in      *Interp
	ch      chan int // 1 resume, 2 kill, 3 abort the path (main only)
	started bool
	done    bool
	exited  chan struct{}
	f       Value
	args    []Value
	wait    func() bool
	why     string
	slab    []Value
	sp      int
	curFr   *frame
	vc      []int
}

type lockSt struct {
	w  int // 0 free, 1 held
	r  int
	vc []int
}
type wgSt struct {
	n  int64
	vc []int
}
type raceSt struct {
	wg int // last writer
	wc int
	rd map[int]int
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	recvW  int // receivers waiting
	vc     []int
	taken  int
	sent   int
}

func (g *goroutine) save(in *Interp) { g.slab, g.sp, g.curFr = in.slab, in.sp, in.curFr }
func (g *goroutine) restore(in *Interp) {
	in.slab, in.sp, in.curFr = g.slab, g.sp, g.curFr
	in.g = g
}

func (in *Interp) spawn(f Value, args []Value) {
	if in.path == nil {
		panic(unsupported("go statement outside of a path"))
	}
	if len(in.gs) >= 8 {
		panic(unsupported("more than 8 goroutines"))
	}
	g := &goroutine{id: len(in.gs), in: in, ch: make(chan int), f: f, args: args, exited: make(chan struct{})}
	in.gs = append(in.gs, g)
	in.path.concurrent = true
	in.racing = true
	in.tick()
	g.vc = append([]int(nil), in.g.vc...)
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
	in.yield("go")
}

func (in *Interp) tick() {
	g := in.g
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func joinVC(a *[]int, b []int) {
	for i, v := range b {
		if i >= len(*a) {
			*a = append(*a, v)
		} else if v > (*a)[i] {
			(*a)[i] = v
		}
	}
}

func (g *goroutine) runnable() bool {
	return !g.done && (g.wait == nil || g.wait())
}

// yield is a possible context switch point of the running goroutine.
func (in *Interp) yield(why string) {
	p := in.path
	if p == nil || len(in.gs) < 2 || p.preempt <= 0 {
		return
	}
	if why != "sym.Yield" && in.curFr != nil && in.curFr.fn.harness() {
		return // switches at the harness's own operations show nothing: starting and finishing order is explored by block
	}
	cur := in.g
	if p.preempt <= 0 {
		return
	}
	var opts []*goroutine
	for _, g := range in.gs {
		if g != cur && g.runnable() {
			opts = append(opts, g)
		}
	}
	if len(opts) == 0 {
		return
	}
	k := in.choose("sched", len(opts)+1)
	p.schedTrace = append(p.schedTrace, k)
	if k == 0 {
		return
	}
	p.preempt--
	in.switchTo(opts[k-1])
}

// block suspends the running goroutine until pred holds.
func (in *Interp) block(why string, pred func() bool) {
	if pred() {
		return
	}
	if in.path == nil {
		panic(unsupported("blocking outside of a path: " + why))
	}
	cur := in.g
	cur.wait = pred
	cur.why = why
	for !pred() {
		g := in.pick(cur)
		if g == nil {
			in.violationNow("deadlock", "deadlock: all goroutines are blocked ("+why+")")
		}
		in.switchTo(g)
	}
	cur.wait = nil
}

func (in *Interp) pick(not *goroutine) *goroutine {
	var opts []*goroutine
	for _, g := range in.gs {
		if g != not && g.runnable() {
			opts = append(opts, g)
		}
	}
	if len(opts) == 0 {
		return nil
	}
	k := in.choose("sched", len(opts))
	in.path.schedTrace = append(in.path.schedTrace, k)
	return opts[k]
}

func (in *Interp) switchTo(g *goroutine) {
	cur := in.g
	cur.save(in)
	in.startOrResume(g)
	in.wait(cur)
}

func (in *Interp) wait(cur *goroutine) {
	switch <-cur.ch {
	case 1:
		cur.restore(in)
	case 2:
		panic(abortPath{"killed", ""})
	case 3:
		cur.restore(in)
		panic(in.path.pending)
	}
}

func (in *Interp) startOrResume(g *goroutine) {
	if g.started {
		g.ch <- 1
		return
	}
	g.started = true
	in.g = g
	in.slab = make([]Value, 1<<13)
	in.sp = 0
	in.curFr = nil
	go in.goMain(g)
}

func (in *Interp) goMain(g *goroutine) {
	defer close(g.exited)
	var ab any
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil, goexit:
			case abortPath:
				ab = x
			case targetPanic:
				in.recordPanic(x)
				ab = abortPath{"violation", "panic in goroutine"}
			default:
				ab = r
				if u, ok := r.(unsupported); ok {
					ab = unsupported(string(u) + " in " + in.stackStr(4))
				}
			}
		}()
		in.callValue(g.f, g.args)
	}()
	g.done = true
	if a, ok := ab.(abortPath); ok && a.kind == "killed" {
		return
	}
	if ab == nil {
		var nx *goroutine
		func() {
			defer func() {
				if r := recover(); r != nil {
					ab = r
				}
			}()
			nx = in.pick(g)
			if nx == nil {
				in.violationNow("deadlock", "deadlock: all goroutines are blocked ("+in.gs[0].why+")")
			}
		}()
		if ab == nil {
			in.startOrResume(nx)
			return
		}
	}
	in.path.pending = ab
	in.gs[0].ch <- 3
}

func (in *Interp) killAll() {
	for _, g := range in.gs {
		if g.id == 0 || !g.started || g.done {
			continue
		}
		g.ch <- 2
		<-g.exited
	}
	for _, g := range in.gs {
		if g.id != 0 && g.started {
			<-g.exited
		}
	}
	in.gs = nil
}

// ---- channels ----

func (in *Interp) chanSend(c *ChanV, v Value) {
	if c == nil {
		in.block("send on nil channel", func() bool { return false })
	}
	in.yield("send")
	if c.closed {
		in.rtPanicPlain("send on closed channel")
	}
	if c.cap > 0 {
		in.block("channel send", func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			in.rtPanicPlain("send on closed channel")
		}
		c.buf = append(c.buf, copyVal(v))
		in.tick()
		joinVC(&c.vc, in.g.vc)
		return
	}
	c.buf = append(c.buf, copyVal(v))
	in.tick()
	joinVC(&c.vc, in.g.vc)
	c.sent++
	my := c.sent
	in.block("channel send", func() bool { return c.taken >= my })
}

func (in *Interp) rtPanicPlain(msg string) { panic(targetPanic{v: in.runtimeError(msg)}) }

func (in *Interp) chanRecv(c *ChanV, et types.Type) (Value, bool) {
	if c == nil {
		in.block("receive on nil channel", func() bool { return false })
	}
	in.yield("recv")
	c.recvW++
	in.block("channel receive", func() bool { return len(c.buf) > 0 || c.closed })
	c.recvW--
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		c.taken++
		if in.g != nil {
			joinVC(&in.g.vc, c.vc)
		}
		return v, true
	}
	if in.g != nil {
		joinVC(&in.g.vc, c.vc)
	}
	return zero(et), false
}

func (in *Interp) chanClose(c *ChanV) {
	if c == nil {
		in.rtPanicPlain("close of nil channel")
	}
	if c.closed {
		in.rtPanicPlain("close of closed channel")
	}
	c.closed = true
	if in.g != nil {
		in.tick()
		joinVC(&c.vc, in.g.vc)
	}
	in.yield("close")
}

func (c *fcomp) compSelect(x *ssa.Select, dst int) func(fr *frame) {
	type st struct {
		send bool
		ch   opnd
		val  opnd
		et   types.Type
	}
	var sts []st
	for _, s := range x.States {
		q := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if q.send {
			q.val = c.op(s.Send)
		}
		sts = append(sts, q)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		in := fr.in
		ready := func() []int {
			var r []int
			for i := range sts {
				ch, _ := sts[i].ch.get(fr).(*ChanV)
				if ch == nil {
					continue
				}
				if sts[i].send {
					if ch.closed || (ch.cap > 0 && len(ch.buf) < ch.cap) || (ch.cap == 0 && ch.recvW > 0 && len(ch.buf) == 0) {
						r = append(r, i)
					}
				} else if len(ch.buf) > 0 || ch.closed {
					r = append(r, i)
				}
			}
			return r
		}
		in.yield("select")
		r := ready()
		if len(r) == 0 && blocking {
			in.block("select", func() bool { return len(ready()) > 0 })
			r = ready()
		}
		idx := -1
		if len(r) > 0 {
			idx = r[in.choose("sched", len(r))]
		}
		tup := Tuple{uint64(int64(idx)), false}
		for i := range sts {
			var v Value
			var ok bool
			if i == idx {
				ch := sts[i].ch.get(fr).(*ChanV)
				if sts[i].send {
					in.chanSend(ch, sts[i].val.get(fr))
				} else {
					v, ok = in.chanRecv(ch, sts[i].et)
					tup[1] = ok
				}
			}
			if !sts[i].send {
				if v == nil {
					v = zero(sts[i].et)
				}
				tup = append(tup, v)
			}
		}
		fr.env[dst] = tup
	}
}

// ---- locks ----

func (in *Interp) lockOf(v Value) *lockSt {
	p := in.toPtr(v)
	l := in.path.locks[p]
	if l == nil {
		l = &lockSt{}
		in.path.locks[p] = l
	}
	return l
}

func (in *Interp) lock(v Value) {
	if in.path == nil {
		return
	}
	l := in.lockOf(v)
	in.yield("lock")
	in.block("mutex lock", func() bool { return l.w == 0 && l.r == 0 })
	l.w = 1
	joinVC(&in.g.vc, l.vc)
}

func (in *Interp) unlock(v Value) {
	if in.path == nil {
		return
	}
	l := in.lockOf(v)
	if l.w == 0 {
		in.violationNow("crash", "fatal error: sync: unlock of unlocked mutex")
	}
	l.w = 0
	in.tick()
	l.vc = append([]int(nil), in.g.vc...)
	in.yield("unlock")
}

func (in *Interp) rlock(v Value) {
	if in.path == nil {
		return
	}
	l := in.lockOf(v)
	in.yield("rlock")
	in.block("rwmutex rlock", func() bool { return l.w == 0 })
	l.r++
	joinVC(&in.g.vc, l.vc)
}

func (in *Interp) runlock(v Value) {
	if in.path == nil {
		return
	}
	l := in.lockOf(v)
	if l.r == 0 {
		in.violationNow("crash", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	l.r--
	in.tick()
	joinVC(&l.vc, in.g.vc)
	in.yield("runlock")
}

// raceMem checks an access to memory cells against concurrent accesses.
func (in *Interp) raceMem(p Ptr, write bool) {
	if p == nil || in.g == nil || in.path == nil {
		return
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			in.raceMem(&x[i], write)
		}
		return
	case Array:
		for i := range x {
			in.raceMem(&x[i], write)
		}
		return
	}
	ps := in.path
	r := ps.mraces[p]
	if r == nil {
		if ps.mraces == nil {
			ps.mraces = map[Ptr]*raceSt{}
		}
		r = &raceSt{wg: -1}
		ps.mraces[p] = r
	}
	in.raceAccess(r, write, "memory")
}

// raceSlice checks an access to elements of a slice.
func (in *Interp) raceSlice(s []Value, write bool) {
	for i := range s {
		in.raceMem(&s[i], write)
	}
}

func (in *Interp) raceAccess(r *raceSt, write bool, what string) {
	in.tick()
	g := in.g
	at := func(i int) int {
		if i < len(g.vc) {
			return g.vc[i]
		}
		return 0
	}
	if r.wg >= 0 && r.wg != g.id && r.wc > at(r.wg) {
		in.violationNow("race", fmt.Sprintf("concurrent %s access: goroutine %d is not ordered after the write of goroutine %d", what, g.id, r.wg))
	}
	if write {
		for o, c := range r.rd {
			if o != g.id && c > at(o) {
				in.violationNow("race", fmt.Sprintf("concurrent %s access: write of goroutine %d is not ordered after the read of goroutine %d", what, g.id, o))
			}
		}
		r.wg, r.wc = g.id, g.vc[g.id]
		r.rd = nil
	} else {
		if r.rd == nil {
			r.rd = map[int]int{}
		}
		r.rd[g.id] = g.vc[g.id]
	}
}

// raceMap checks a map access against concurrent accesses (the Go runtime throws on those).
func (in *Interp) raceMap(m *MapV, write bool) {
	p := in.path
	if p == nil || !p.concurrent || m == nil || m.sync || in.g == nil {
		return
	}
	r := p.races[m]
	if r == nil {
		r = &raceSt{wg: -1}
		p.races[m] = r
	}
	in.raceAccess(r, write, "map")
}
