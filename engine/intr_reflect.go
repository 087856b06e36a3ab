package main

import (
	"fmt"
	"go/types"
	"reflect"
)

// A small model of package reflect: reflect.Type values are RType, reflect.Value structs carry an rval.
type rval struct {
	t    types.Type
	v    Value
	addr Ptr
}

type rmapIter struct {
	mt *types.Map
	es []*mapEnt
	at int
}

func (in *Interp) rtIface(t types.Type) Iface {
	if t == nil {
		return Iface{}
	}
	return Iface{t: canon(types.NewPointer(in.p.typ("reflect", "rtype"))), v: RType{canon(t)}}
}

func (in *Interp) mkRVal(t types.Type, v Value, addr Ptr) Value {
	if t == nil {
		return Struct{Ptr(nil), UPtr{}, uint64(0)}
	}
	return Struct{&Native{kind: "rval", v: &rval{t, v, addr}}, UPtr{}, uint64(1)}
}

func getRVal(v Value) *rval {
	s := v.(Struct)
	n, ok := s[0].(*Native)
	if !ok {
		return nil
	}
	return n.v.(*rval)
}

func (r *rval) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func rtypeMethod(in *Interp, rt RType, name string, args []Value) Value {
	switch name {
	case "Kind":
		return uint64(kindOf(rt.t))
	case "String":
		return typeStr(rt.t)
	case "Name":
		switch n := rt.t.(type) {
		case *types.Named:
			return n.Obj().Name()
		case *types.Basic:
			return n.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := rt.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Elem":
		switch u := rt.t.Underlying().(type) {
		case *types.Pointer:
			return in.rtIface(u.Elem())
		case *types.Slice:
			return in.rtIface(u.Elem())
		case *types.Array:
			return in.rtIface(u.Elem())
		case *types.Map:
			return in.rtIface(u.Elem())
		case *types.Chan:
			return in.rtIface(u.Elem())
		}
		in.rtPanicPlain("reflect: Elem of invalid type")
	case "Key":
		return in.rtIface(rt.t.Underlying().(*types.Map).Key())
	case "NumField":
		return uint64(rt.t.Underlying().(*types.Struct).NumFields())
	case "NumIn":
		return uint64(rt.t.Underlying().(*types.Signature).Params().Len())
	case "NumOut":
		return uint64(rt.t.Underlying().(*types.Signature).Results().Len())
	case "In":
		return in.rtIface(rt.t.Underlying().(*types.Signature).Params().At(int(args[0].(uint64))).Type())
	case "Out":
		return in.rtIface(rt.t.Underlying().(*types.Signature).Results().At(int(args[0].(uint64))).Type())
	case "IsVariadic":
		return rt.t.Underlying().(*types.Signature).Variadic()
	case "Comparable":
		return types.Comparable(rt.t)
	case "Field":
		st := rt.t.Underlying().(*types.Struct)
		return in.structField(st, int(in.concInt(args[0])))
	case "FieldByName":
		st := rt.t.Underlying().(*types.Struct)
		n := in.concStr(args[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return Tuple{in.structField(st, i), true}
			}
		}
		return Tuple{zero(in.p.typ("reflect", "StructField")), false}
	case "Len":
		return uint64(rt.t.Underlying().(*types.Array).Len())
	case "Size":
		return uint64(gcSizes.Sizeof(rt.t))
	case "Bits":
		return uint64(gcSizes.Sizeof(rt.t) * 8)
	case "NumMethod":
		if i, ok := rt.t.Underlying().(*types.Interface); ok {
			return uint64(i.NumMethods())
		}
		ms := in.p.prog.MethodSets.MethodSet(rt.t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return uint64(n)
	case "AssignableTo":
		return types.AssignableTo(rt.t, args[0].(Iface).v.(RType).t)
	case "ConvertibleTo":
		return types.ConvertibleTo(rt.t, args[0].(Iface).v.(RType).t)
	case "Implements":
		o := args[0].(Iface).v.(RType)
		return in.implements(rt.t, o.t)
	}
	panic(unsupported("reflect.Type." + name))
}

// structField is a reflect.StructField.
func (in *Interp) structField(st *types.Struct, i int) Value {
	t := in.p.typ("reflect", "StructField")
	v := zero(t).(Struct)
	u := t.Underlying().(*types.Struct)
	f := st.Field(i)
	for k := 0; k < u.NumFields(); k++ {
		switch u.Field(k).Name() {
		case "Name":
			v[k] = f.Name()
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				v[k] = f.Pkg().Path()
			}
		case "Type":
			v[k] = in.rtIface(f.Type())
		case "Tag":
			v[k] = st.Tag(i)
		case "Index":
			v[k] = SliceV{uint64(i)}
		case "Anonymous":
			v[k] = f.Embedded()
		}
	}
	return v
}

func (in *Interp) deepEqual(a, b Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return in.deepEqual(x.v, y.v, x.t)
	case *types.Slice:
		x, y := a.(SliceV), b.(SliceV)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		res := in.tc.tTrue
		for i := range x {
			res = in.tc.And(res, in.toTerm(in.deepEqual(x[i], y[i], u.Elem()), 1))
			if res.isFalse() {
				return false
			}
		}
		return simp(res)
	case *types.Array:
		x, y := a.(Array), b.(Array)
		res := in.tc.tTrue
		for i := range x {
			res = in.tc.And(res, in.toTerm(in.deepEqual(x[i], y[i], u.Elem()), 1))
		}
		return simp(res)
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		res := in.tc.tTrue
		for i := range x {
			res = in.tc.And(res, in.toTerm(in.deepEqual(x[i], y[i], u.Field(i).Type()), 1))
			if res.isFalse() {
				return false
			}
		}
		return simp(res)
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		if (x == nil) != (y == nil) || x.len() != y.len() {
			return false
		}
		res := in.tc.tTrue
		for _, e := range x.live() {
			v, ok := in.mapGet(y, e.k)
			if !ok {
				return false
			}
			res = in.tc.And(res, in.toTerm(in.deepEqual(e.v, v, u.Elem()), 1))
			if res.isFalse() {
				return false
			}
		}
		return simp(res)
	case *types.Pointer:
		x, ok1 := a.(Ptr)
		y, ok2 := b.(Ptr)
		if !ok1 || !ok2 {
			return in.eqVal(a, b, t)
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return in.deepEqual(*x, *y, u.Elem())
	case *types.Signature:
		return isNilFn(a) && isNilFn(b)
	}
	return in.eqVal(a, b, t)
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case Ptr:
		return x == nil
	case SliceV:
		return x == nil
	case *MapV:
		return x == nil
	case Iface:
		return x.t == nil
	case *ChanV:
		return x == nil
	case *Closure, *Func, *NativeFn:
		return isNilFn(v)
	case UPtr:
		return x.v == nil
	}
	return false
}

func initReflect(reg regFn) {
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.rtIface(a[0].(Iface).t) }, "reflect.TypeOf", "internal/reflectlite.TypeOf")
	reg(func(in *Interp, fr *frame, a []Value) Value { return typeStr(a[0].(RType).t) }, "(*reflect.rtype).String")
	for _, m := range []string{"Kind", "Name", "Elem", "Key", "NumField", "PkgPath", "NumIn", "NumOut", "Field", "Len", "Size", "NumMethod", "Implements", "AssignableTo", "ConvertibleTo", "Comparable"} {
		m := m
		reg(func(in *Interp, fr *frame, a []Value) Value { return rtypeMethod(in, a[0].(RType), m, a[1:]) }, "(*reflect.rtype)."+m)
	}
	reg(func(in *Interp, fr *frame, a []Value) Value {
		v := a[0].(Iface)
		return in.mkRVal(v.t, v.v, nil)
	}, "reflect.ValueOf")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return in.mkRVal(t, zero(t), nil)
	}, "reflect.Zero")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return in.deepEqual(x.v, y.v, x.t)
	}, "reflect.DeepEqual")
	elem := func(in *Interp, r *rval) Value {
		v := r.get()
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			p := v.(Ptr)
			if p == nil {
				return in.mkRVal(nil, nil, nil)
			}
			return in.mkRVal(u.Elem(), nil, p)
		case *types.Interface:
			iv := v.(Iface)
			return in.mkRVal(iv.t, iv.v, nil)
		}
		in.rtPanicPlain("reflect: call of reflect.Value.Elem on " + r.t.String() + " Value")
		return nil
	}
	reg(func(in *Interp, fr *frame, a []Value) Value {
		r := getRVal(a[0])
		if r == nil {
			return a[0]
		}
		if _, ok := r.t.Underlying().(*types.Pointer); ok {
			return elem(in, r)
		}
		return a[0]
	}, "reflect.Indirect")
	m := func(name string, f func(in *Interp, r *rval, a []Value) Value) {
		reg(func(in *Interp, fr *frame, a []Value) Value {
			r := getRVal(a[0])
			if r == nil {
				switch name {
				case "IsValid":
					return false
				case "Kind":
					return uint64(0)
				case "String":
					return "<invalid Value>"
				}
				in.rtPanicPlain("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(in, r, a)
		}, "(reflect.Value)."+name)
	}
	m("IsValid", func(in *Interp, r *rval, a []Value) Value { return true })
	m("Kind", func(in *Interp, r *rval, a []Value) Value { return uint64(kindOf(r.t)) })
	m("IsNil", func(in *Interp, r *rval, a []Value) Value { return isNilVal(r.get()) })
	m("Elem", func(in *Interp, r *rval, a []Value) Value { return elem(in, r) })
	m("Type", func(in *Interp, r *rval, a []Value) Value { return in.rtIface(r.t) })
	m("CanInterface", func(in *Interp, r *rval, a []Value) Value { return true })
	m("CanAddr", func(in *Interp, r *rval, a []Value) Value { return r.addr != nil })
	m("CanSet", func(in *Interp, r *rval, a []Value) Value { return r.addr != nil })
	m("Interface", func(in *Interp, r *rval, a []Value) Value {
		v := r.get()
		if iv, ok := v.(Iface); ok {
			return iv
		}
		return Iface{t: canon(r.t), v: copyVal(v)}
	})
	m("String", func(in *Interp, r *rval, a []Value) Value {
		if isString(r.t) {
			return r.get()
		}
		return "<" + typeStr(r.t) + " Value>"
	})
	m("Int", func(in *Interp, r *rval, a []Value) Value {
		w, s, _ := intInfo(r.t)
		v := r.get()
		if u, ok := v.(uint64); ok {
			if s {
				return uint64(sx(u, w))
			}
			return u
		}
		return simp(in.tc.SExt(in.toTerm(v, w), 64))
	})
	m("Uint", func(in *Interp, r *rval, a []Value) Value { return r.get() })
	m("Bool", func(in *Interp, r *rval, a []Value) Value { return r.get() })
	m("Float", func(in *Interp, r *rval, a []Value) Value {
		if f, ok := r.get().(float32); ok {
			return float64(f)
		}
		return r.get()
	})
	m("Len", func(in *Interp, r *rval, a []Value) Value {
		switch v := r.get().(type) {
		case string, *SymStr:
			return uint64(strLen(v))
		case SliceV:
			return uint64(len(v))
		case Array:
			return uint64(len(v))
		case *MapV:
			return uint64(v.len())
		}
		panic(unsupported("reflect Len"))
	})
	m("NumField", func(in *Interp, r *rval, a []Value) Value {
		return uint64(r.t.Underlying().(*types.Struct).NumFields())
	})
	field := func(in *Interp, r *rval, i int) Value {
		st := r.t.Underlying().(*types.Struct)
		s := r.get().(Struct)
		return in.mkRVal(st.Field(i).Type(), s[i], &s[i])
	}
	m("Field", func(in *Interp, r *rval, a []Value) Value { return field(in, r, int(a[1].(uint64))) })
	m("FieldByName", func(in *Interp, r *rval, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		n := a[1].(string)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return field(in, r, i)
			}
		}
		return in.mkRVal(nil, nil, nil)
	})
	m("Index", func(in *Interp, r *rval, a []Value) Value {
		i := int(a[1].(uint64))
		switch v := r.get().(type) {
		case SliceV:
			if i >= len(v) {
				in.rtPanicPlain("reflect: slice index out of range")
			}
			return in.mkRVal(r.t.Underlying().(*types.Slice).Elem(), v[i], &v[i])
		case Array:
			return in.mkRVal(r.t.Underlying().(*types.Array).Elem(), v[i], &v[i])
		}
		panic(unsupported("reflect Index"))
	})
	m("MapIndex", func(in *Interp, r *rval, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		k := getRVal(a[1]).get()
		if _, ok := mt.Key().Underlying().(*types.Interface); ok {
			if _, ok := k.(Iface); !ok {
				k = Iface{t: canon(getRVal(a[1]).t), v: k}
			}
		}
		v, ok := in.mapGet(r.get().(*MapV), k)
		if !ok {
			return in.mkRVal(nil, nil, nil)
		}
		return in.mkRVal(mt.Elem(), v, nil)
	})
	m("MapKeys", func(in *Interp, r *rval, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		var out SliceV
		for _, e := range r.get().(*MapV).live() {
			out = append(out, in.mkRVal(mt.Key(), e.k, nil))
		}
		return out
	})
	m("IsZero", func(in *Interp, r *rval, a []Value) Value {
		v := r.get()
		switch v.(type) {
		case SliceV, *MapV, Iface:
			return isNilVal(v)
		}
		return in.deepEqual(v, zero(r.t), r.t)
	})
	m("Set", func(in *Interp, r *rval, a []Value) Value {
		if r.addr == nil {
			in.rtPanicPlain("reflect: reflect.Value.Set using unaddressable value")
		}
		o := getRVal(a[1])
		v := o.get()
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			if _, ok := v.(Iface); !ok {
				v = Iface{t: canon(o.t), v: v}
			}
		}
		in.store(r.addr, copyVal(v))
		return nil
	})
	setter := func(name string, conv func(in *Interp, r *rval, v Value) Value) {
		m(name, func(in *Interp, r *rval, a []Value) Value {
			if r.addr == nil {
				in.rtPanicPlain("reflect: reflect.Value." + name + " using unaddressable value")
			}
			in.store(r.addr, conv(in, r, a[1]))
			return nil
		})
	}
	same := func(in *Interp, r *rval, v Value) Value { return v }
	setter("SetString", same)
	setter("SetBool", same)
	setInt := func(from types.Type) func(in *Interp, r *rval, v Value) Value {
		return func(in *Interp, r *rval, v Value) Value { return convertFn(from, r.t)(in, v) }
	}
	setter("SetInt", setInt(types.Typ[types.Int64]))
	setter("SetUint", setInt(types.Typ[types.Uint64]))
	setter("SetFloat", func(in *Interp, r *rval, v Value) Value {
		if kindOf(r.t) == reflect.Float32 {
			return float32(in.concFloat(v))
		}
		return v
	})
	into := func(t types.Type, o *rval) Value {
		if o == nil {
			return zero(t)
		}
		v := o.get()
		if types.IsInterface(t) {
			if _, ok := v.(Iface); !ok {
				v = Iface{t: canon(o.t), v: v}
			}
		}
		return copyVal(v)
	}
	m("SetMapIndex", func(in *Interp, r *rval, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		k, o := into(mt.Key(), getRVal(a[1])), getRVal(a[2])
		if o == nil {
			in.mapDelete(r.get().(*MapV), k)
			return nil
		}
		in.mapSet(r.get().(*MapV), k, into(mt.Elem(), o))
		return nil
	})
	m("MapRange", func(in *Interp, r *rval, a []Value) Value {
		return &Native{kind: "mapiter", v: &rmapIter{mt: r.t.Underlying().(*types.Map), es: r.get().(*MapV).live(), at: -1}}
	})
	mi := func(a []Value) *rmapIter { return a[0].(*Native).v.(*rmapIter) }
	reg(func(in *Interp, fr *frame, a []Value) Value { mi(a).at++; return mi(a).at < len(mi(a).es) }, "(*reflect.MapIter).Next")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x := mi(a)
		return in.mkRVal(x.mt.Key(), x.es[x.at].k, nil)
	}, "(*reflect.MapIter).Key")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x := mi(a)
		return in.mkRVal(x.mt.Elem(), x.es[x.at].v, nil)
	}, "(*reflect.MapIter).Value")
	m("Slice", func(in *Interp, r *rval, a []Value) Value {
		lo, hi := int(in.concInt(a[1])), int(in.concInt(a[2]))
		s, ok := r.get().(SliceV)
		if !ok || lo < 0 || hi < lo || hi > cap(s) {
			panic(unsupported("reflect Slice"))
		}
		return in.mkRVal(r.t, s[lo:hi], nil)
	})
	m("Cap", func(in *Interp, r *rval, a []Value) Value { return uint64(cap(r.get().(SliceV))) })
	m("Addr", func(in *Interp, r *rval, a []Value) Value { return in.mkRVal(types.NewPointer(r.t), r.addr, nil) })
	m("Bytes", func(in *Interp, r *rval, a []Value) Value { return r.get() })
	m("Convert", func(in *Interp, r *rval, a []Value) Value {
		t := a[1].(Iface).v.(RType).t
		if kindOf(t) == kindOf(r.t) && types.Identical(t.Underlying(), r.t.Underlying()) {
			return in.mkRVal(t, r.get(), nil)
		}
		if types.IsInterface(t) {
			return in.mkRVal(t, into(t, r), nil)
		}
		return in.mkRVal(t, convertFn(r.t, t)(in, r.get()), nil)
	})
	m("MethodByName", func(in *Interp, r *rval, a []Value) Value {
		f := in.findMethod(canon(r.t), in.concStr(a[1]), nil)
		if f == nil {
			return in.mkRVal(nil, nil, nil)
		}
		recv := copyVal(r.get())
		sig := types.NewSignatureType(nil, nil, nil, f.fn.Signature.Params(), f.fn.Signature.Results(), f.fn.Signature.Variadic())
		return in.mkRVal(sig, &NativeFn{name: "method", f: func(in *Interp, av []Value) Value { return in.callFn(f, append([]Value{recv}, av...), nil) }}, nil)
	})
	m("Call", func(in *Interp, r *rval, a []Value) Value {
		sig := r.t.Underlying().(*types.Signature)
		if sig.Variadic() {
			panic(unsupported("reflect call of a variadic function"))
		}
		var av []Value
		for i, x := range a[1].(SliceV) {
			av = append(av, into(sig.Params().At(i).Type(), getRVal(x)))
		}
		res := in.callValue(r.get(), av)
		out := SliceV{}
		switch n := sig.Results().Len(); n {
		case 0:
		case 1:
			out = append(out, in.mkRVal(sig.Results().At(0).Type(), res, nil))
		default:
			for i, x := range res.(Tuple) {
				out = append(out, in.mkRVal(sig.Results().At(i).Type(), x, nil))
			}
		}
		return out
	})
	rt := func(v Value) types.Type { return v.(Iface).v.(RType).t }
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := new(Value)
		*p = zero(rt(a[0]))
		return in.mkRVal(types.NewPointer(rt(a[0])), p, nil)
	}, "reflect.New")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.mkRVal(rt(a[0]), newMap(in.epoch), nil) }, "reflect.MakeMap", "reflect.MakeMapWithSize")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n, c := int(in.concInt(a[1])), int(in.concInt(a[2]))
		s := make(SliceV, c)
		for i := range s {
			s[i] = zero(rt(a[0]).Underlying().(*types.Slice).Elem())
		}
		return in.mkRVal(rt(a[0]), s[:n], nil)
	}, "reflect.MakeSlice")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		r := getRVal(a[0])
		s := r.get().(SliceV)
		s = s[:len(s):len(s)]
		for _, x := range a[1].(SliceV) {
			s = append(s, into(r.t.Underlying().(*types.Slice).Elem(), getRVal(x)))
		}
		return in.mkRVal(r.t, s, nil)
	}, "reflect.Append")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.rtIface(types.NewPointer(rt(a[0]))) }, "reflect.PointerTo", "reflect.PtrTo")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.rtIface(types.NewSlice(rt(a[0]))) }, "reflect.SliceOf")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.rtIface(types.NewMap(rt(a[0]), rt(a[1]))) }, "reflect.MapOf")
	m("Pointer", func(in *Interp, r *rval, a []Value) Value {
		// only used to compare code pointers
		switch f := r.get().(type) {
		case *Closure:
			if f == nil {
				return uint64(0)
			}
			return in.p.codeID(f.fn)
		case *Func:
			return in.p.codeID(f)
		}
		panic(unsupported(fmt.Sprintf("reflect Pointer of %T", r.get())))
	})
}

func (p *Program) codeID(f *Func) uint64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.codeIDs == nil {
		p.codeIDs = map[*Func]uint64{}
	}
	id, ok := p.codeIDs[f]
	if !ok {
		id = uint64(len(p.codeIDs)+1) * 64
		p.codeIDs[f] = id
	}
	return id
}
