package main

import (
	"fmt"
	"go/types"
	"strings"
)

const modPath = "github.com/GannettDigital/jstransform"
const symPath = modPath + "/zzverif/sym"

func (in *Interp) needPath() *pathState {
	if in.path == nil {
		panic(unsupported("symbolic input outside of a path"))
	}
	return in.path
}

func (in *Interp) uniq(name string) string {
	p := in.needPath()
	n := p.names[name]
	p.names[name] = n + 1
	var sb strings.Builder
	for _, c := range name {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	if n > 0 {
		return fmt.Sprintf("%s_r%d", sb.String(), n)
	}
	return sb.String()
}

func (in *Interp) input(name, kind string, v Value) Value {
	p := in.path
	p.inputs = append(p.inputs, inRec{Name: name, Kind: kind, v: v})
	return v
}

func (in *Interp) symStr(name string, n int, lo, hi uint64) Value {
	u := in.uniq(name)
	if n == 0 {
		return in.input(name, "str", "")
	}
	b := make([]Value, n)
	for i := range b {
		if lo == hi {
			b[i] = lo
			continue
		}
		b[i] = in.tc.Var(fmt.Sprintf("%s_%d", u, i), KBV, 8, int64(lo), int64(hi))
	}
	return in.input(name, "str", mkStr(b))
}

func initSym(reg regFn) {
	r := func(name string, f func(in *Interp, a []Value) Value) {
		reg(func(in *Interp, fr *frame, a []Value) Value { return f(in, a) }, symPath+"."+name)
	}
	r("Bool", func(in *Interp, a []Value) Value {
		n := a[0].(string)
		return in.input(n, "bool", in.tc.Var(in.uniq(n), KBool, 1, 0, 1))
	})
	r("Int", func(in *Interp, a []Value) Value {
		n := a[0].(string)
		lo, hi := in.concInt(a[1]), in.concInt(a[2])
		u := in.uniq(n)
		if lo == hi {
			return in.input(n, "int", uint64(lo))
		}
		return in.input(n, "int", in.tc.Var(u, KBV, 64, lo, hi))
	})
	r("Byte", func(in *Interp, a []Value) Value {
		n := a[0].(string)
		lo, hi := in.concInt(a[1]), in.concInt(a[2])
		u := in.uniq(n)
		if lo == hi {
			return in.input(n, "byte", uint64(lo))
		}
		return in.input(n, "byte", in.tc.Var(u, KBV, 8, lo, hi))
	})
	r("Float", func(in *Interp, a []Value) Value {
		n := a[0].(string)
		return in.input(n, "float", in.tc.Var(in.uniq(n), KFP, 64, 0, 0))
	})
	r("Choose", func(in *Interp, a []Value) Value {
		n := a[0].(string)
		in.uniq(n)
		k := in.choose(n, int(in.concInt(a[1])))
		return in.input(n, "int", uint64(k))
	})
	r("StrN", func(in *Interp, a []Value) Value {
		return in.symStr(a[0].(string), int(in.concInt(a[1])), a[2].(uint64), a[3].(uint64))
	})
	r("StrIn", func(in *Interp, a []Value) Value {
		n := in.choose(a[0].(string)+".len", int(in.concInt(a[1]))+1)
		return in.symStr(a[0].(string), n, a[2].(uint64), a[3].(uint64))
	})
	r("Assume", func(in *Interp, a []Value) Value { in.needPath(); in.assume(a[0]); return nil })
	r("Assert", func(in *Interp, a []Value) Value {
		in.needPath()
		in.assertV(a[0], "", in.concStr(a[1]))
		return nil
	})
	r("Finding", func(in *Interp, a []Value) Value {
		in.needPath()
		in.assertV(a[1], in.concStr(a[0]), in.concStr(a[2]))
		return nil
	})
	r("PanicFinding", func(in *Interp, a []Value) Value {
		p := in.needPath()
		p.panicID, p.panicText = in.concStr(a[0]), in.concStr(a[1])
		return nil
	})
	r("Fail", func(in *Interp, a []Value) Value {
		in.needPath()
		in.violate("assert", "", in.concStr(a[0]), in.path.model)
		return nil
	})
	r("Skip", func(in *Interp, a []Value) Value { panic(abortPath{"infeasible", "skip"}) })
	r("Reach", func(in *Interp, a []Value) Value { in.needPath().reached[a[0].(string)] = true; return nil })
	r("Observe", func(in *Interp, a []Value) Value {
		p := in.needPath()
		p.observes = append(p.observes, obsRec{Tag: a[0].(string), v: a[1]})
		return nil
	})
	r("Once", func(in *Interp, a []Value) Value {
		k := a[0].(string)
		if v, ok := in.once[k]; ok {
			return v
		}
		v := in.outside(func() Value { return in.callValue(a[1], nil) })
		in.once[k] = v
		return v
	})
	r("MapOrder", func(in *Interp, a []Value) Value {
		p := in.needPath()
		p.mapOrder = int(in.concInt(a[0]))
		p.mapOrderMax = int(in.concInt(a[1]))
		if p.mapOrder == 2 {
			p.mapRev = in.choose("maporder", 2) == 1
		}
		return nil
	})
	r("Schedule", func(in *Interp, a []Value) Value {
		p := in.needPath()
		p.preempt = int(in.concInt(a[0]))
		p.concurrent = true
		return nil
	})
	r("Yield", func(in *Interp, a []Value) Value { in.yield("sym.Yield"); return nil })
	r("Tier", func(in *Interp, a []Value) Value { return uint64(in.ex.tier) })
	r("TempDir", func(in *Interp, a []Value) Value {
		p := in.needPath()
		p.tmp++
		d := fmt.Sprintf("/symtmp/d%d", p.tmp)
		in.fs().dirs[d] = true
		return d
	})
	r("FileLimit", func(in *Interp, a []Value) Value {
		in.fs().limit = nil
		if n, ok := a[0].(uint64); !ok || int64(n) >= 0 {
			in.fs().limit = a[0]
		}
		return nil
	})
	r("Budget", func(in *Interp, a []Value) Value {
		in.needPath().budget = in.steps + in.concInt(a[0])
		return nil
	})
	r("And", func(in *Interp, a []Value) Value {
		res := in.tc.tTrue
		for _, x := range a[0].(SliceV) {
			res = in.tc.And(res, in.toTerm(x, 1))
		}
		return simp(res)
	})
	r("Or", func(in *Interp, a []Value) Value {
		res := in.tc.tFalse
		for _, x := range a[0].(SliceV) {
			res = in.tc.Or(res, in.toTerm(x, 1))
		}
		return simp(res)
	})
	r("Not", func(in *Interp, a []Value) Value { return in.notV(a[0]) })
	r("Iff", func(in *Interp, a []Value) Value {
		return simp(in.tc.Eq(in.toTerm(a[0], 1), in.toTerm(a[1], 1)))
	})
	r("Equal", func(in *Interp, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return in.deepEqual(x.v, y.v, x.t)
	})
	_ = types.Typ
}
