package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fcomp struct {
	p    *Program
	f    *Func
	regs map[ssa.Value]int
}

func (f *Func) compile() {
	fn := f.fn
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				f.err = u
				return
			}
			panic(r)
		}
	}()
	if fn.Blocks == nil {
		if pk := fn.Package(); pk != nil {
			pk.Build()
		} else if o := fn.Origin(); o != nil && o.Package() != nil {
			o.Package().Build()
		}
	}
	if fn.Blocks == nil {
		f.err = fmt.Errorf("no body for %s", f.name)
		return
	}
	c := &fcomp{p: f.p, f: f, regs: map[ssa.Value]int{}}
	n := 0
	for _, p := range fn.Params {
		c.regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		c.regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
			switch i.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				f.hasDefer = true
			}
			f.ninstr++
		}
	}
	f.nregs = n
	f.recoverB = -1
	if fn.Recover != nil {
		f.recoverB = fn.Recover.Index
	}
	blocks := make([]*block, len(fn.Blocks))
	for i, b := range fn.Blocks {
		nb := &block{n: int64(len(b.Instrs))}
		for _, s := range b.Succs {
			nb.succ = append(nb.succ, s.Index)
		}
		var phis []*ssa.Phi
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				phis = append(phis, x)
			case *ssa.If:
				nb.term = c.compIf(x)
			case *ssa.Jump:
				nb.term = func(fr *frame) int { return 0 }
			case *ssa.Return:
				nb.term = c.compReturn(x)
			case *ssa.Panic:
				o := c.op(x.X)
				nb.term = func(fr *frame) int {
					v := o.get(fr)
					iv, _ := v.(Iface)
					if iv.t == nil {
						iv = fr.in.runtimeError("panic called with nil argument")
					}
					panic(targetPanic{iv})
				}
			default:
				if code := c.comp(ins); code != nil {
					nb.code = append(nb.code, code)
				}
			}
		}
		if len(phis) > 0 {
			nb.phis = make([][]phi, len(b.Preds))
			for pi := range b.Preds {
				for _, ph := range phis {
					nb.phis[pi] = append(nb.phis[pi], phi{dst: c.regs[ph], src: c.op(ph.Edges[pi])})
				}
			}
		}
		blocks[i] = nb
	}
	for i, b := range fn.Blocks {
		for si, s := range b.Succs {
			// the index of b in s.Preds; for duplicate edges take matching occurrence
			occ := 0
			for k := 0; k < si; k++ {
				if b.Succs[k] == s {
					occ++
				}
			}
			for pi, pr := range s.Preds {
				if pr == b {
					if occ == 0 {
						blocks[i].predIdx = append(blocks[i].predIdx, pi)
						break
					}
					occ--
				}
			}
		}
	}
	f.blocks = blocks
}

func constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return zero(t)
	}
	if w, signed, ok := intInfo(t); ok {
		if signed {
			return uint64(x.Int64()) & maskw(w)
		}
		return x.Uint64() & maskw(w)
	}
	if w, ok := isFloat(t); ok {
		if w == 32 {
			return float32(x.Float64())
		}
		return x.Float64()
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(x.Value)
		case b.Info()&types.IsString != 0:
			if x.Value.Kind() == constant.String {
				return constant.StringVal(x.Value)
			}
			return string(rune(x.Int64()))
		case b.Info()&types.IsComplex != 0:
			return x.Complex128()
		case b.Kind() == types.UnsafePointer:
			return UPtr{}
		}
	}
	panic(unsupported("const " + x.String()))
}

func (c *fcomp) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{k: opConst, c: constVal(x)}
	case *ssa.Global:
		return opnd{k: opGlobal, g: c.p.globalIdx(x)}
	case *ssa.Function:
		return opnd{k: opConst, c: c.p.fnOf(x)}
	case *ssa.Builtin:
		return opnd{k: opConst, c: x}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("operand %T", v)))
	}
	return opnd{k: opReg, reg: r}
}

func (c *fcomp) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func (c *fcomp) compIf(x *ssa.If) func(fr *frame) int {
	o := c.op(x.Cond)
	return func(fr *frame) int {
		v := o.get(fr)
		b, ok := v.(bool)
		if !ok {
			b = fr.in.decide(v.(*Term))
		}
		if b {
			return 0
		}
		return 1
	}
}

func (c *fcomp) compReturn(x *ssa.Return) func(fr *frame) int {
	switch len(x.Results) {
	case 0:
		return func(fr *frame) int { return -1 }
	case 1:
		o := c.op(x.Results[0])
		return func(fr *frame) int { fr.result = o.get(fr); return -1 }
	}
	os := c.ops(x.Results)
	return func(fr *frame) int {
		t := make(Tuple, len(os))
		for i := range os {
			t[i] = os[i].get(fr)
		}
		fr.result = t
		return -1
	}
}

func (c *fcomp) comp(ins ssa.Instruction) func(fr *frame) {
	dst := -1
	if v, ok := ins.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		z := zero(et)
		switch z.(type) {
		case Struct, Array:
			return func(fr *frame) {
				v := copyVal(z)
				p := new(Value)
				*p = v
				fr.env[dst] = p
			}
		}
		return func(fr *frame) {
			p := new(Value)
			*p = z
			fr.env[dst] = p
		}
	case *ssa.UnOp:
		return c.compUnOp(x, dst)
	case *ssa.BinOp:
		f := binop(x.Op, x.X.Type(), x.Y.Type())
		a, b := c.op(x.X), c.op(x.Y)
		return func(fr *frame) { fr.env[dst] = f(fr.in, a.get(fr), b.get(fr)) }
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		race := !c.f.noRace
		return func(fr *frame) {
			addr := a.get(fr)
			p, ok := addr.(Ptr)
			if !ok {
				p = fr.in.toPtr(addr)
			}
			val := v.get(fr)
			if p == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			if race && fr.in.racing {
				fr.in.raceMem(p, true)
			}
			switch val.(type) {
			case Struct, Array:
				fr.in.store(p, val)
			default:
				if fr.in.trailOn {
					fr.in.trail = append(fr.in.trail, trailEnt{p: p, old: *p})
				}
				*p = val
			}
		}
	case *ssa.FieldAddr:
		o := c.op(x.X)
		i := x.Field
		return func(fr *frame) {
			v := o.get(fr)
			p, ok := v.(Ptr)
			if !ok {
				p = fr.in.toPtr(v)
			}
			if p == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(unsupported(fmt.Sprintf("field address of %T", *p)))
			}
			fr.env[dst] = &s[i]
		}
	case *ssa.Field:
		o := c.op(x.X)
		i := x.Field
		return func(fr *frame) { fr.env[dst] = o.get(fr).(Struct)[i] }
	case *ssa.IndexAddr:
		return c.compIndexAddr(x, dst)
	case *ssa.Index:
		o, io := c.op(x.X), c.op(x.Index)
		str := isString(x.X.Type())
		w, sg, _ := intInfo(x.Index.Type())
		ew, _, _ := intInfo(x.Type())
		return func(fr *frame) {
			v := o.get(fr)
			var s []Value
			if str {
				i := io.get(fr)
				if cs, ok := v.(string); ok {
					if u, ok := i.(uint64); ok {
						k := idxInt(u, w, sg)
						if k < 0 || k >= int64(len(cs)) {
							fr.in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, len(cs)))
						}
						fr.env[dst] = uint64(cs[k])
						return
					}
				}
				s = strBytes(v)
				fr.env[dst] = fr.in.resolveTab(fr.in.index(s, i, w, sg), 8)
				return
			}
			s = v.(Array)
			r := fr.in.index(s, io.get(fr), w, sg)
			if _, ok := r.(symTab); ok {
				r = fr.in.resolveTab(r, ew)
			}
			fr.env[dst] = r
		}
	case *ssa.Lookup:
		return c.compLookup(x, dst)
	case *ssa.Extract:
		o := c.op(x.Tuple)
		i := x.Index
		return func(fr *frame) { fr.env[dst] = o.get(fr).(Tuple)[i] }
	case *ssa.Call:
		return c.compCall(&x.Call, dst)
	case *ssa.Go:
		return c.compGo(&x.Call)
	case *ssa.Defer:
		return c.compDefer(&x.Call)
	case *ssa.RunDefers:
		return func(fr *frame) { fr.in.runDefers(fr) }
	case *ssa.MakeInterface:
		o := c.op(x.X)
		t := canon(x.X.Type())
		return func(fr *frame) { fr.env[dst] = Iface{t: t, v: o.get(fr)} }
	case *ssa.ChangeInterface:
		o := c.op(x.X)
		return func(fr *frame) { fr.env[dst] = o.get(fr) }
	case *ssa.ChangeType:
		o := c.op(x.X)
		return func(fr *frame) { fr.env[dst] = o.get(fr) }
	case *ssa.Convert:
		f := convertFn(x.X.Type(), x.Type())
		o := c.op(x.X)
		return func(fr *frame) { fr.env[dst] = f(fr.in, o.get(fr)) }
	case *ssa.MultiConvert:
		f := convertFn(x.X.Type(), x.Type())
		o := c.op(x.X)
		return func(fr *frame) { fr.env[dst] = f(fr.in, o.get(fr)) }
	case *ssa.TypeAssert:
		return c.compTypeAssert(x, dst)
	case *ssa.MakeClosure:
		f := c.p.fnOf(x.Fn.(*ssa.Function))
		bs := c.ops(x.Bindings)
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.env[dst] = &Closure{fn: f, env: env}
		}
	case *ssa.MakeMap:
		return func(fr *frame) { fr.env[dst] = newMap(fr.in.epoch) }
	case *ssa.MakeSlice:
		lo, co := c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			n := fr.in.concInt(lo.get(fr))
			k := fr.in.concInt(co.get(fr))
			if n < 0 || n > 1<<26 {
				fr.in.rtPanic("makeslice: len out of range")
			}
			if k < n || k > 1<<26 {
				fr.in.rtPanic("makeslice: cap out of range")
			}
			fr.env[dst] = makeSlice(et, int(n), int(k))
		}
	case *ssa.MakeChan:
		o := c.op(x.Size)
		return func(fr *frame) {
			n := fr.in.concInt(o.get(fr))
			fr.env[dst] = &ChanV{cap: int(n)}
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *frame) { fr.in.mapSet(m.get(fr).(*MapV), k.get(fr), v.get(fr)) }
	case *ssa.Range:
		o := c.op(x.X)
		rp := c.f.inRepo || strings.HasPrefix(c.f.name, "maps.")
		return func(fr *frame) { fr.env[dst] = fr.in.rangeIter(o.get(fr), rp) }
	case *ssa.Next:
		o := c.op(x.Iter)
		if x.IsString {
			return func(fr *frame) { fr.env[dst] = fr.in.nextStr(o.get(fr).(*strIter)) }
		}
		tt := x.Type().(*types.Tuple)
		var zk, zv Value
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zk = zero(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zv = zero(tt.At(2).Type())
		}
		return func(fr *frame) { fr.env[dst] = fr.in.nextMap(o.get(fr).(*mapIter), zk, zv) }
	case *ssa.Slice:
		return c.compSlice(x, dst)
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(fr *frame) { fr.in.chanSend(ch.get(fr).(*ChanV), v.get(fr)) }
	case *ssa.Select:
		return c.compSelect(x, dst)
	case *ssa.SliceToArrayPointer:
		o := c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := o.get(fr).(SliceV)
			if len(s) < n {
				fr.in.rtPanic("cannot convert slice to array pointer: too short")
			}
			var v Value = Array(s[:n:n])
			fr.env[dst] = &v
		}
	}
	panic(unsupported(fmt.Sprintf("instruction %T", ins)))
}

func makeSlice(et types.Type, n, k int) SliceV {
	s := make(SliceV, k)
	z := zero(et)
	switch z.(type) {
	case Struct, Array:
		for i := range s {
			s[i] = copyVal(z)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

func idxInt(u uint64, w uint8, signed bool) int64 {
	if signed {
		return sx(u, w)
	}
	if u > math.MaxInt64 {
		return -1
	}
	return int64(u)
}

func (in *Interp) toPtr(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		return p
	case UPtr:
		if p.v == nil {
			return nil
		}
		return in.toPtr(p.v)
	case SymPtr:
		i := in.concTerm(p.idx)
		return &p.s[i]
	}
	panic(unsupported(fmt.Sprintf("pointer %T", v)))
}

// index reads element idx of s with bounds check, idx possibly symbolic.
func (in *Interp) index(s []Value, idx Value, w uint8, signed bool) Value {
	if u, ok := idx.(uint64); ok {
		k := idxInt(u, w, signed)
		if k < 0 || k >= int64(len(s)) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, len(s)))
		}
		return s[k]
	}
	t := in.boundsCheck(idx.(*Term), len(s), signed)
	return in.symIndex(s, t)
}

func (in *Interp) boundsCheck(t *Term, n int, signed bool) *Term {
	if signed {
		t = in.tc.SExt(t, 64)
	} else {
		t = in.tc.ZExt(t, 64)
	}
	ok := in.tc.Ult(t, in.tc.BV(uint64(n), 64))
	if !in.decide(ok) {
		in.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return t
}

// symIndex builds an if-then-else over the elements (index known in range).
func (in *Interp) symIndex(s []Value, idx *Term) Value {
	lo, hi := uint64(0), uint64(len(s)-1)
	if idx.umin > lo {
		lo = idx.umin
	}
	if idx.umax < hi {
		hi = idx.umax
	}
	if lo > hi {
		panic(abortPath{"infeasible", "index"})
	}
	switch s[lo].(type) {
	case uint64, bool, *Term, float64:
		if hi-lo <= 1100 {
			// group equal values
			all := true
			for i := lo; i <= hi; i++ {
				switch s[i].(type) {
				case uint64, bool, *Term, float64:
				default:
					all = false
				}
			}
			if all {
				var ref *Term
				for i := lo; i <= hi; i++ {
					if t, ok := s[i].(*Term); ok {
						ref = t
						break
					}
				}
				var w uint8 = 64
				if ref != nil {
					w = ref.w
				} else if _, ok := s[lo].(uint64); ok {
					// width irrelevant for constants: the consumer masks; use 64 unless bytes
					m := uint64(0)
					for i := lo; i <= hi; i++ {
						m |= s[i].(uint64)
					}
					_ = m
					return in.symTable(s, lo, hi, idx)
				}
				res := in.toTerm(s[hi], w)
				for i := int64(hi) - 1; i >= int64(lo); i-- {
					res = in.tc.Ite(in.tc.Eq(idx, in.tc.BV(uint64(i), idx.w)), in.toTerm(s[i], w), res)
				}
				return simp(res)
			}
		}
	}
	if hi-lo <= 1100 {
		if v, ok := in.symGroups(s, lo, hi, idx); ok {
			return v
		}
	}
	i := in.concTerm(idx)
	return s[i]
}

// symGroups forks on the distinct values of s rather than on the indexes, when many elements are the same.
func (in *Interp) symGroups(s []Value, lo, hi uint64, idx *Term) (Value, bool) {
	type grp struct {
		v  Value
		in *Term
		n  int
	}
	same := func(a, b Value) bool {
		switch x := a.(type) {
		case SliceV:
			y, ok := b.(SliceV)
			return ok && len(x) == len(y) && cap(x) == cap(y) && (x == nil) == (y == nil) && (len(x) == 0 && cap(x) == 0 || len(x) > 0 && &x[0] == &y[0])
		case string:
			y, ok := b.(string)
			return ok && x == y
		case Ptr:
			y, ok := b.(Ptr)
			return ok && x == y
		}
		return a == nil && b == nil
	}
	var gs []*grp
	for i := lo; i <= hi; {
		j := i
		for j < hi && same(s[i], s[j+1]) {
			j++
		}
		t := in.tc.And(in.tc.Ule(in.tc.BV(i, idx.w), idx), in.tc.Ule(idx, in.tc.BV(j, idx.w)))
		var g *grp
		for _, o := range gs {
			if same(o.v, s[i]) {
				g = o
			}
		}
		if g == nil {
			if len(gs) == 24 {
				return nil, false
			}
			g = &grp{v: s[i], in: in.tc.tFalse}
			gs = append(gs, g)
		}
		g.in = in.tc.Or(g.in, t)
		g.n += int(j - i + 1)
		i = j + 1
	}
	if uint64(len(gs))*2 > hi-lo {
		return nil, false
	}
	sort.SliceStable(gs, func(a, b int) bool { return gs[a].n > gs[b].n })
	for _, g := range gs[:len(gs)-1] {
		if in.decide(g.in) {
			return g.v, true
		}
	}
	return gs[len(gs)-1].v, true
}

// symTable reads a constant table of integers: the result width is unknown here, so the value is kept as a
// lazily sized term (width 64) wrapped in symTab; consumers narrow it.
func (in *Interp) symTable(s []Value, lo, hi uint64, idx *Term) Value {
	same := true
	for i := lo; i <= hi; i++ {
		if s[i] != s[lo] {
			same = false
			break
		}
	}
	if same {
		return s[lo]
	}
	return symTab{s: s, lo: lo, hi: hi, idx: idx}
}

// symTab is resolved to a term of the proper width by the load site.
type symTab struct {
	s      []Value
	lo, hi uint64
	idx    *Term
}

func (in *Interp) resolveTab(v Value, w uint8) Value {
	t, ok := v.(symTab)
	if !ok {
		return v
	}
	// most common value as default keeps the chain short
	cnt := map[uint64]int{}
	for i := t.lo; i <= t.hi; i++ {
		cnt[t.s[i].(uint64)]++
	}
	var def uint64
	best := -1
	for i := t.lo; i <= t.hi; i++ {
		u := t.s[i].(uint64)
		if cnt[u] > best {
			best, def = cnt[u], u
		}
	}
	res := in.tc.BV(def, w)
	tc := in.tc
	i := int64(t.hi)
	for i >= int64(t.lo) {
		u := t.s[i].(uint64)
		if u == def {
			i--
			continue
		}
		j := i
		for j-1 >= int64(t.lo) && t.s[j-1].(uint64) == u {
			j--
		}
		var cond *Term
		if i == j {
			cond = tc.Eq(t.idx, tc.BV(uint64(i), t.idx.w))
		} else {
			cond = tc.And(tc.Ule(tc.BV(uint64(j), t.idx.w), t.idx), tc.Ule(t.idx, tc.BV(uint64(i), t.idx.w)))
		}
		res = tc.Ite(cond, tc.BV(u, w), res)
		i = j - 1
	}
	return simp(res)
}

// simp turns constant terms into concrete values.
func simp(t *Term) Value {
	if t.op != OConst {
		return t
	}
	switch t.kind {
	case KBool:
		return t.val == 1
	case KBV:
		return t.val
	}
	if t.w == 32 {
		return math.Float32frombits(uint32(t.val))
	}
	return math.Float64frombits(t.val)
}

func (in *Interp) toTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return in.tc.Bool(x)
	case uint64:
		return in.tc.BV(x, w)
	case float64:
		return in.tc.FP64(x)
	case float32:
		return in.tc.FP32(x)
	case symTab:
		return in.toTerm(in.resolveTab(x, w), w)
	}
	panic(unsupported(fmt.Sprintf("toTerm %T", v)))
}

func (c *fcomp) compIndexAddr(x *ssa.IndexAddr, dst int) func(fr *frame) {
	o, io := c.op(x.X), c.op(x.Index)
	w, sg, _ := intInfo(x.Index.Type())
	return func(fr *frame) {
		v := o.get(fr)
		var s []Value
		switch b := v.(type) {
		case SliceV:
			s = b
		case Ptr:
			if b == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			s = (*b).(Array)
		case UPtr:
			s = (*fr.in.toPtr(b)).(Array)
		default:
			panic(unsupported(fmt.Sprintf("index address of %T", v)))
		}
		i := io.get(fr)
		if u, ok := i.(uint64); ok {
			k := idxInt(u, w, sg)
			if k < 0 || k >= int64(len(s)) {
				fr.in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, len(s)))
			}
			fr.env[dst] = &s[k]
			return
		}
		t := fr.in.boundsCheck(i.(*Term), len(s), sg)
		fr.env[dst] = SymPtr{s: s, idx: t}
	}
}

func (c *fcomp) compUnOp(x *ssa.UnOp, dst int) func(fr *frame) {
	o := c.op(x.X)
	switch x.Op {
	case token.MUL:
		w, _, isInt := intInfo(x.Type())
		race := !c.f.noRace
		return func(fr *frame) {
			v := o.get(fr)
			p, ok := v.(Ptr)
			if !ok {
				if sp, ok := v.(SymPtr); ok && race && fr.in.racing {
					fr.in.raceSlice(sp.s, false)
				}
				r := fr.in.load(v)
				if isInt {
					r = fr.in.resolveTab(r, w)
				}
				fr.env[dst] = r
				return
			}
			if p == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			if race && fr.in.racing {
				fr.in.raceMem(p, false)
			}
			r := *p
			switch r.(type) {
			case Struct, Array:
				r = copyVal(r)
			}
			fr.env[dst] = r
		}
	case token.NOT:
		return func(fr *frame) {
			v := o.get(fr)
			if b, ok := v.(bool); ok {
				fr.env[dst] = !b
				return
			}
			fr.env[dst] = simp(fr.in.tc.Not(v.(*Term)))
		}
	case token.SUB:
		if w, _, ok := intInfo(x.Type()); ok {
			return func(fr *frame) {
				v := o.get(fr)
				if u, ok := v.(uint64); ok {
					fr.env[dst] = (-u) & maskw(w)
					return
				}
				fr.env[dst] = simp(fr.in.tc.Neg(v.(*Term)))
			}
		}
		return func(fr *frame) {
			switch v := o.get(fr).(type) {
			case float64:
				fr.env[dst] = -v
			case float32:
				fr.env[dst] = -v
			case *Term:
				fr.env[dst] = simp(fr.in.tc.FNeg(v))
			default:
				panic(unsupported("neg"))
			}
		}
	case token.XOR:
		w, _, _ := intInfo(x.Type())
		return func(fr *frame) {
			v := o.get(fr)
			if u, ok := v.(uint64); ok {
				fr.env[dst] = (^u) & maskw(w)
				return
			}
			fr.env[dst] = simp(fr.in.tc.BNot(v.(*Term)))
		}
	case token.ARROW:
		commaOk := x.CommaOk
		var et types.Type
		et = x.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			v, ok := fr.in.chanRecv(o.get(fr).(*ChanV), et)
			if commaOk {
				fr.env[dst] = Tuple{v, ok}
			} else {
				fr.env[dst] = v
			}
		}
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (c *fcomp) compLookup(x *ssa.Lookup, dst int) func(fr *frame) {
	o, k := c.op(x.X), c.op(x.Index)
	if isString(x.X.Type()) {
		w, sg, _ := intInfo(x.Index.Type())
		return func(fr *frame) {
			fr.env[dst] = fr.in.resolveTab(fr.in.index(strBytes(o.get(fr)), k.get(fr), w, sg), 8)
		}
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	z := zero(vt)
	commaOk := x.CommaOk
	return func(fr *frame) {
		v, ok := fr.in.mapGet(o.get(fr).(*MapV), k.get(fr))
		if !ok {
			v = copyVal(z)
		} else {
			v = copyVal(v)
		}
		if commaOk {
			fr.env[dst] = Tuple{v, ok}
		} else {
			fr.env[dst] = v
		}
	}
}

func (c *fcomp) compTypeAssert(x *ssa.TypeAssert, dst int) func(fr *frame) {
	o := c.op(x.X)
	at := canon(x.AssertedType)
	_, toIface := at.Underlying().(*types.Interface)
	z := zero(at)
	commaOk := x.CommaOk
	return func(fr *frame) {
		v := o.get(fr).(Iface)
		ok := false
		var r Value
		if v.t != nil {
			if toIface {
				if fr.in.implements(v.t, at) {
					ok = true
					r = v
				}
			} else if v.t == at {
				ok = true
				r = v.v
			}
		}
		if commaOk {
			if !ok {
				r = copyVal(z)
			}
			fr.env[dst] = Tuple{r, ok}
			return
		}
		if !ok {
			ts := "nil"
			if v.t != nil {
				ts = v.t.String()
			}
			fr.in.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, at.String()))
		}
		fr.env[dst] = r
	}
}

func (c *fcomp) compSlice(x *ssa.Slice, dst int) func(fr *frame) {
	o := c.op(x.X)
	var lo, hi, mx *opnd
	g := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		q := c.op(v)
		return &q
	}
	lo, hi, mx = g(x.Low), g(x.High), g(x.Max)
	return func(fr *frame) {
		in := fr.in
		v := o.get(fr)
		geti := func(p *opnd, def int) int {
			if p == nil {
				return def
			}
			i := in.concInt(p.get(fr))
			if i < -1 || i > 1<<40 {
				i = -1
			}
			return int(i)
		}
		switch b := v.(type) {
		case string, *SymStr:
			n := strLen(b)
			l, h := geti(lo, 0), geti(hi, n)
			if h < 0 || h > n || l < 0 || l > h {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.env[dst] = strSlice(b, l, h)
			return
		case SliceV:
			l, h := geti(lo, 0), geti(hi, len(b))
			m := geti(mx, cap(b))
			if m < 0 || m > cap(b) || h < 0 || h > m || l < 0 || l > h {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(b)))
			}
			if b == nil {
				fr.env[dst] = b
				return
			}
			fr.env[dst] = b[l:h:m]
			return
		case Ptr:
			if b == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			a := (*b).(Array)
			l, h := geti(lo, 0), geti(hi, len(a))
			m := geti(mx, len(a))
			if m < 0 || m > len(a) || h < 0 || h > m || l < 0 || l > h {
				in.rtPanic("slice bounds out of range")
			}
			fr.env[dst] = SliceV(a[l:h:m])
			return
		}
		panic(unsupported(fmt.Sprintf("slice of %T", v)))
	}
}

// ---- calls ----

func (in *Interp) tmpArgs(n int) []Value {
	base := in.sp
	if base+n > len(in.slab) {
		return make([]Value, n)
	}
	in.sp = base + n
	return in.slab[base : base+n : base+n]
}

func (c *fcomp) compCall(call *ssa.CallCommon, dst int) func(fr *frame) {
	args := c.ops(call.Args)
	na := len(args)
	if call.IsInvoke() {
		recv := c.op(call.Value)
		name := call.Method.Name()
		pkg := call.Method.Pkg()
		return func(fr *frame) {
			in := fr.in
			r, ok := recv.get(fr).(Iface)
			if !ok {
				panic(unsupported(fmt.Sprintf("invoke on %T", recv.get(fr))))
			}
			if r.t == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			slab, sp := in.slab, in.sp
			a := in.tmpArgs(na + 1)
			a[0] = r.v
			for i := range args {
				a[i+1] = args[i].get(fr)
			}
			if nv, ok := r.v.(*Native); ok {
				if h := nativeMethods[nv.kind+"."+name]; h != nil {
					fr.env[dst] = h(in, fr, a)
					in.slab, in.sp = slab, sp
					return
				}
			}
			if rt, ok := r.v.(RType); ok {
				fr.env[dst] = rtypeMethod(in, rt, name, a[1:])
				in.slab, in.sp = slab, sp
				return
			}
			f := in.findMethod(r.t, name, pkg)
			if f == nil {
				panic(unsupported("no method " + name + " on " + r.t.String()))
			}
			fr.env[dst] = in.callFn(f, a, nil)
			in.slab, in.sp = slab, sp
		}
	}
	switch fv := call.Value.(type) {
	case *ssa.Builtin:
		return c.compBuiltin(fv.Name(), call, args, dst)
	case *ssa.Function:
		// calls to another package's init are lazy
		if fv.Name() == "init" && fv.Signature.Recv() == nil && fv.Pkg != nil && fv.Parent() == nil && len(args) == 0 && fv.Pkg.Func("init") == fv {
			return nil
		}
		f := c.p.fnOf(fv)
		return func(fr *frame) {
			in := fr.in
			slab, sp := in.slab, in.sp
			a := in.tmpArgs(na)
			for i := range args {
				a[i] = args[i].get(fr)
			}
			fr.env[dst] = in.callFn(f, a, nil)
			in.slab, in.sp = slab, sp
		}
	}
	fo := c.op(call.Value)
	return func(fr *frame) {
		in := fr.in
		slab, sp := in.slab, in.sp
		a := in.tmpArgs(na)
		for i := range args {
			a[i] = args[i].get(fr)
		}
		fr.env[dst] = in.callValue(fo.get(fr), a)
		in.slab, in.sp = slab, sp
	}
}

// callee resolves a call into a function value and evaluated arguments (for go and defer).
func (c *fcomp) compCallee(call *ssa.CallCommon) func(fr *frame) (Value, []Value) {
	args := c.ops(call.Args)
	if call.IsInvoke() {
		recv := c.op(call.Value)
		name := call.Method.Name()
		pkg := call.Method.Pkg()
		return func(fr *frame) (Value, []Value) {
			r := recv.get(fr).(Iface)
			if r.t == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			a := make([]Value, len(args)+1)
			a[0] = r.v
			for i := range args {
				a[i+1] = args[i].get(fr)
			}
			f := fr.in.findMethod(r.t, name, pkg)
			if f == nil {
				panic(unsupported("no method " + name))
			}
			return f, a
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		// builtin deferred: wrap
		name := b.Name()
		return func(fr *frame) (Value, []Value) {
			a := make([]Value, len(args))
			for i := range args {
				a[i] = args[i].get(fr)
			}
			return &NativeFn{name: name, f: func(in *Interp, av []Value) Value {
				switch name {
				case "close":
					in.chanClose(av[0].(*ChanV))
				case "delete":
					in.mapDelete(av[0].(*MapV), av[1])
				case "print", "println":
				case "recover":
					return in.doRecover(fr)
				case "panic":
					panic(targetPanic{av[0].(Iface)})
				default:
					panic(unsupported("deferred builtin " + name))
				}
				return nil
			}}, a
		}
	}
	fo := c.op(call.Value)
	return func(fr *frame) (Value, []Value) {
		a := make([]Value, len(args))
		for i := range args {
			a[i] = args[i].get(fr)
		}
		return fo.get(fr), a
	}
}

func (c *fcomp) compDefer(call *ssa.CallCommon) func(fr *frame) {
	cal := c.compCallee(call)
	return func(fr *frame) {
		f, a := cal(fr)
		fr.defers = append(fr.defers, deferred{fn: f, args: a})
	}
}

func (c *fcomp) compGo(call *ssa.CallCommon) func(fr *frame) {
	cal := c.compCallee(call)
	return func(fr *frame) {
		f, a := cal(fr)
		fr.in.spawn(f, a)
	}
}

func (in *Interp) doRecover(fr *frame) Value {
	// fr is the frame of the deferred function; its caller is the panicking frame
	if fr.caller != nil && fr.caller.panicking && !fr.panicking {
		switch p := fr.caller.pv.(type) {
		case targetPanic:
			fr.caller.panicking = false
			fr.caller.pv = nil
			return p.v
		}
	}
	return Iface{}
}
