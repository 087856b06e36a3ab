package main

import (
	"go/types"
	"strings"
)

type regFn func(h intrinsic, names ...string)

func (in *Interp) fieldOf(t types.Type, s Struct, name string) Ptr {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &s[i]
		}
	}
	panic(unsupported("field " + name))
}

func (in *Interp) syncMap(v Value, create bool) *MapV {
	p := in.toPtr(v)
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	m := in.smaps[p]
	if m == nil && create {
		m = newMap(in.epoch)
		m.sync = true
		in.smaps[p] = m
		in.onUndo(func() { delete(in.smaps, p) })
	}
	return m
}

func (in *Interp) syncMapSync(v Value) {
	if in.path == nil || !in.path.concurrent {
		return
	}
	in.yield("sync.Map")
	l := in.lockOf(v)
	in.tick()
	joinVC(&in.g.vc, l.vc)
	joinVC(&l.vc, in.g.vc)
}

func initSync(reg regFn) {
	nilV := func(f func(in *Interp, a []Value)) intrinsic {
		return func(in *Interp, fr *frame, a []Value) Value { f(in, a); return nil }
	}
	reg(nilV(func(in *Interp, a []Value) { in.lock(a[0]) }), "(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(nilV(func(in *Interp, a []Value) { in.unlock(a[0]) }), "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(nilV(func(in *Interp, a []Value) { in.rlock(a[0]) }), "(*sync.RWMutex).RLock")
	reg(nilV(func(in *Interp, a []Value) { in.runlock(a[0]) }), "(*sync.RWMutex).RUnlock")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		if in.path == nil {
			return true
		}
		l := in.lockOf(a[0])
		in.yield("trylock")
		if l.w == 0 && l.r == 0 {
			l.w = 1
			joinVC(&in.g.vc, l.vc)
			return true
		}
		return false
	}, "(*sync.Mutex).TryLock", "(*internal/sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	wg := func(in *Interp, v Value) *wgSt {
		p := in.toPtr(v)
		w := in.path.wgs[p]
		if w == nil {
			w = &wgSt{}
			in.path.wgs[p] = w
		}
		return w
	}
	add := func(in *Interp, v Value, n int64) {
		if in.path == nil {
			return
		}
		w := wg(in, v)
		w.n += n
		if w.n < 0 {
			in.rtPanicPlain("sync: negative WaitGroup counter")
		}
		in.tick()
		joinVC(&w.vc, in.g.vc)
		if n < 0 {
			in.yield("wg.Done")
		}
	}
	reg(nilV(func(in *Interp, a []Value) { add(in, a[0], in.concInt(a[1])) }), "(*sync.WaitGroup).Add")
	reg(nilV(func(in *Interp, a []Value) { add(in, a[0], -1) }), "(*sync.WaitGroup).Done")
	reg(nilV(func(in *Interp, a []Value) {
		if in.path == nil {
			return
		}
		w := wg(in, a[0])
		in.yield("wg.Wait")
		in.block("WaitGroup.Wait", func() bool { return w.n <= 0 })
		joinVC(&in.g.vc, w.vc)
	}), "(*sync.WaitGroup).Wait")
	reg(nilV(func(in *Interp, a []Value) {
		p := in.toPtr(a[0])
		switch in.onces[p] {
		case 2:
			if in.path != nil && in.path.concurrent {
				joinVC(&in.g.vc, in.lockOf(a[0]).vc)
			}
			return
		case 1:
			in.block("Once.Do", func() bool { return in.onces[p] == 2 })
			joinVC(&in.g.vc, in.lockOf(a[0]).vc)
			return
		}
		var fn *Func
		switch c := a[1].(type) {
		case *Closure:
			fn = c.fn
		case *Func:
			fn = c
		}
		if fn != nil && !fn.inRepo && !strings.Contains(fn.name, "zzverif") {
			in.onces[p] = 2
			in.outside(func() Value { return in.callValue(a[1], nil) })
			return
		}
		in.onces[p] = 1
		in.onUndo(func() { delete(in.onces, p) })
		done := func() {
			in.onces[p] = 2
			if in.path != nil && in.path.concurrent {
				in.tick()
				joinVC(&in.lockOf(a[0]).vc, in.g.vc)
			}
		}
		defer func() {
			if r := recover(); r != nil {
				done()
				panic(r)
			}
		}()
		in.callValue(a[1], nil)
		done()
	}), "(*sync.Once).Do")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		if p := in.toPtr(a[0]); in.path != nil {
			if l := in.path.pools[p]; len(l) > 0 {
				v := l[len(l)-1]
				in.path.pools[p] = l[:len(l)-1]
				if in.path.concurrent {
					joinVC(&in.g.vc, in.lockOf(a[0]).vc)
				}
				return v
			}
		}
		s := (*in.toPtr(a[0])).(Struct)
		f := *in.fieldOf(in.p.typ("sync", "Pool"), s, "New")
		if isNilFn(f) {
			return Iface{}
		}
		return in.callValue(f, nil)
	}, "(*sync.Pool).Get")

	reg(nilV(func(in *Interp, a []Value) {
		if in.path == nil {
			return
		}
		if x, ok := a[1].(Iface); ok && x.t == nil {
			return
		}
		p := in.toPtr(a[0])
		if in.path.pools == nil {
			in.path.pools = map[Ptr][]Value{}
		}
		in.path.pools[p] = append(in.path.pools[p], a[1])
		if in.path.concurrent {
			in.tick()
			joinVC(&in.lockOf(a[0]).vc, in.g.vc)
		}
	}), "(*sync.Pool).Put")

	// sync.Map
	reg(func(in *Interp, fr *frame, a []Value) Value {
		in.syncMapSync(a[0])
		m := in.syncMap(a[0], false)
		v, ok := in.mapGet(m, a[1])
		if !ok {
			return Tuple{Iface{}, false}
		}
		return Tuple{v, true}
	}, "(*sync.Map).Load")
	reg(nilV(func(in *Interp, a []Value) {
		in.syncMapSync(a[0])
		in.mapSet(in.syncMap(a[0], true), a[1], a[2])
	}), "(*sync.Map).Store")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		in.syncMapSync(a[0])
		m := in.syncMap(a[0], true)
		if v, ok := in.mapGet(m, a[1]); ok {
			return Tuple{v, true}
		}
		in.mapSet(m, a[1], a[2])
		return Tuple{a[2], false}
	}, "(*sync.Map).LoadOrStore")
	reg(nilV(func(in *Interp, a []Value) {
		in.syncMapSync(a[0])
		in.mapDelete(in.syncMap(a[0], false), a[1])
	}), "(*sync.Map).Delete")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		in.syncMapSync(a[0])
		m := in.syncMap(a[0], false)
		v, ok := in.mapGet(m, a[1])
		if !ok {
			return Tuple{Iface{}, false}
		}
		in.mapDelete(m, a[1])
		return Tuple{v, true}
	}, "(*sync.Map).LoadAndDelete")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		in.syncMapSync(a[0])
		m := in.syncMap(a[0], true)
		v, ok := in.mapGet(m, a[1])
		in.mapSet(m, a[1], a[2])
		if !ok {
			return Tuple{Iface{}, false}
		}
		return Tuple{v, true}
	}, "(*sync.Map).Swap")
	reg(nilV(func(in *Interp, a []Value) {
		in.syncMapSync(a[0])
		for _, e := range in.syncMap(a[0], false).live() {
			if !in.truth(in.callValue(a[1], []Value{e.k, e.v})) {
				break
			}
		}
	}), "(*sync.Map).Range")
	reg(nilV(func(in *Interp, a []Value) {
		in.syncMapSync(a[0])
		in.mapClear(in.syncMap(a[0], false))
	}), "(*sync.Map).Clear")

	// atomics
	at := func(in *Interp, v Value) Ptr {
		p := in.toPtr(v)
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if in.path != nil && in.path.concurrent {
			in.yield("atomic")
			l := in.lockOf(p)
			in.tick()
			joinVC(&in.g.vc, l.vc)
			joinVC(&l.vc, in.g.vc)
		}
		return p
	}
	for _, k := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		k := k
		reg(func(in *Interp, fr *frame, a []Value) Value { return *at(in, a[0]) }, "sync/atomic.Load"+k.n)
		reg(nilV(func(in *Interp, a []Value) { in.setCell(at(in, a[0]), a[1]) }), "sync/atomic.Store"+k.n)
		reg(func(in *Interp, fr *frame, a []Value) Value {
			p := at(in, a[0])
			o := *p
			in.setCell(p, a[1])
			return o
		}, "sync/atomic.Swap"+k.n)
		reg(func(in *Interp, fr *frame, a []Value) Value {
			p := at(in, a[0])
			if in.truth(in.eqVal(*p, a[1], nil)) {
				in.setCell(p, a[2])
				return true
			}
			return false
		}, "sync/atomic.CompareAndSwap"+k.n)
		if k.w > 0 {
			reg(func(in *Interp, fr *frame, a []Value) Value {
				p := at(in, a[0])
				x, ok1 := (*p).(uint64)
				y, ok2 := a[1].(uint64)
				var r Value
				if ok1 && ok2 {
					r = (x + y) & maskw(k.w)
				} else {
					r = simp(in.tc.Arith(OAdd, in.toTerm(*p, k.w), in.toTerm(a[1], k.w)))
				}
				in.setCell(p, r)
				return r
			}, "sync/atomic.Add"+k.n)
		}
	}
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := at(in, a[0])
		s := (*p).(Struct)
		return s[0]
	}, "(*sync/atomic.Value).Load")
	reg(nilV(func(in *Interp, a []Value) {
		p := at(in, a[0])
		s := (*p).(Struct)
		in.setCell(&s[0], a[1])
	}), "(*sync/atomic.Value).Store")
}
