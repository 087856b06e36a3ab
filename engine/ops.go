package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type binfn func(in *Interp, a, b Value) Value

func binop(op token.Token, xt, yt types.Type) binfn {
	switch op {
	case token.EQL:
		return func(in *Interp, a, b Value) Value { return in.eqVal(a, b, xt) }
	case token.NEQ:
		return func(in *Interp, a, b Value) Value {
			r := in.eqVal(a, b, xt)
			if x, ok := r.(bool); ok {
				return !x
			}
			return simp(in.tc.Not(r.(*Term)))
		}
	}
	if w, signed, ok := intInfo(xt); ok {
		return intBinop(op, w, signed, yt)
	}
	if w, ok := isFloat(xt); ok {
		return floatBinop(op, w)
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return func(in *Interp, a, b Value) Value { return strConcat(a, b) }
		case token.LSS:
			return func(in *Interp, a, b Value) Value { return in.strLess(a, b) }
		case token.GTR:
			return func(in *Interp, a, b Value) Value { return in.strLess(b, a) }
		case token.LEQ:
			return func(in *Interp, a, b Value) Value { return in.notV(in.strLess(b, a)) }
		case token.GEQ:
			return func(in *Interp, a, b Value) Value { return in.notV(in.strLess(a, b)) }
		}
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return func(in *Interp, a, b Value) Value { return simp(in.tc.And(in.toTerm(a, 1), in.toTerm(b, 1))) }
		case token.OR, token.LOR:
			return func(in *Interp, a, b Value) Value { return simp(in.tc.Or(in.toTerm(a, 1), in.toTerm(b, 1))) }
		}
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return func(in *Interp, a, b Value) Value {
			x, y := a.(complex128), b.(complex128)
			switch op {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			}
			panic(unsupported("complex op"))
		}
	}
	return func(in *Interp, a, b Value) Value {
		panic(unsupported(fmt.Sprintf("binop %v on %v", op, xt)))
	}
}

func (in *Interp) notV(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return simp(in.tc.Not(v.(*Term)))
}

func intBinop(op token.Token, w uint8, signed bool, yt types.Type) binfn {
	m := maskw(w)
	type cf func(a, b uint64) uint64
	type sf func(tc *TermCtx, a, b *Term) *Term
	mk := func(c cf, s Op) binfn {
		return func(in *Interp, a, b Value) Value {
			if x, ok := a.(uint64); ok {
				if y, ok := b.(uint64); ok {
					return c(x, y)
				}
			}
			return simp(in.tc.Arith(s, in.toTerm(a, w), in.toTerm(b, w)))
		}
	}
	cmp := func(c func(a, b uint64) bool, s sf) binfn {
		return func(in *Interp, a, b Value) Value {
			if x, ok := a.(uint64); ok {
				if y, ok := b.(uint64); ok {
					return c(x, y)
				}
			}
			return simp(s(in.tc, in.toTerm(a, w), in.toTerm(b, w)))
		}
	}
	switch op {
	case token.ADD:
		return mk(func(a, b uint64) uint64 { return (a + b) & m }, OAdd)
	case token.SUB:
		return mk(func(a, b uint64) uint64 { return (a - b) & m }, OSub)
	case token.MUL:
		return mk(func(a, b uint64) uint64 { return (a * b) & m }, OMul)
	case token.AND:
		return mk(func(a, b uint64) uint64 { return a & b }, OBAnd)
	case token.OR:
		return mk(func(a, b uint64) uint64 { return a | b }, OBOr)
	case token.XOR:
		return mk(func(a, b uint64) uint64 { return a ^ b }, OBXor)
	case token.AND_NOT:
		return func(in *Interp, a, b Value) Value {
			if x, ok := a.(uint64); ok {
				if y, ok := b.(uint64); ok {
					return x &^ y
				}
			}
			return simp(in.tc.Arith(OBAnd, in.toTerm(a, w), in.tc.BNot(in.toTerm(b, w))))
		}
	case token.QUO, token.REM:
		so, uo := OSDiv, OUDiv
		if op == token.REM {
			so, uo = OSRem, OURem
		}
		o := uo
		if signed {
			o = so
		}
		return func(in *Interp, a, b Value) Value {
			if y, ok := b.(uint64); ok {
				if y == 0 {
					in.rtPanic("integer divide by zero")
				}
				if x, ok := a.(uint64); ok {
					return evalBV(o, x, y, w)
				}
			} else {
				t := in.toTerm(b, w)
				if in.decide(in.tc.Eq(t, in.tc.BV(0, w))) {
					in.rtPanic("integer divide by zero")
				}
			}
			return simp(in.tc.Arith(o, in.toTerm(a, w), in.toTerm(b, w)))
		}
	case token.SHL, token.SHR:
		yw, ysigned, _ := intInfo(yt)
		o := OShl
		if op == token.SHR {
			o = OLShr
			if signed {
				o = OAShr
			}
		}
		return func(in *Interp, a, b Value) Value {
			if y, ok := b.(uint64); ok {
				if ysigned && sx(y, yw) < 0 {
					in.rtPanic("negative shift amount")
				}
				if x, ok := a.(uint64); ok {
					return evalBV(o, x, y, w)
				}
				if y > 255 {
					y = 255
				}
				return simp(in.tc.Arith(o, in.toTerm(a, w), in.tc.BV(minu(y, uint64(w)), w)))
			}
			bt := in.toTerm(b, yw)
			if ysigned && in.decide(in.tc.Slt(bt, in.tc.BV(0, yw))) {
				in.rtPanic("negative shift amount")
			}
			// saturate the amount at w
			big := in.tc.Ult(in.tc.BV(uint64(w)-1, yw), bt)
			var amt *Term
			if yw >= w {
				amt = in.tc.Trunc(bt, w)
			} else {
				amt = in.tc.ZExt(bt, w)
			}
			at := in.toTerm(a, w)
			var over *Term
			if o == OAShr {
				over = in.tc.Arith(OAShr, at, in.tc.BV(uint64(w)-1, w))
			} else {
				over = in.tc.BV(0, w)
			}
			return simp(in.tc.Ite(big, over, in.tc.Arith(o, at, amt)))
		}
	}
	if signed {
		switch op {
		case token.LSS:
			return cmp(func(a, b uint64) bool { return sx(a, w) < sx(b, w) }, func(t *TermCtx, a, b *Term) *Term { return t.Slt(a, b) })
		case token.LEQ:
			return cmp(func(a, b uint64) bool { return sx(a, w) <= sx(b, w) }, func(t *TermCtx, a, b *Term) *Term { return t.Sle(a, b) })
		case token.GTR:
			return cmp(func(a, b uint64) bool { return sx(a, w) > sx(b, w) }, func(t *TermCtx, a, b *Term) *Term { return t.Slt(b, a) })
		case token.GEQ:
			return cmp(func(a, b uint64) bool { return sx(a, w) >= sx(b, w) }, func(t *TermCtx, a, b *Term) *Term { return t.Sle(b, a) })
		}
	}
	switch op {
	case token.LSS:
		return cmp(func(a, b uint64) bool { return a < b }, func(t *TermCtx, a, b *Term) *Term { return t.Ult(a, b) })
	case token.LEQ:
		return cmp(func(a, b uint64) bool { return a <= b }, func(t *TermCtx, a, b *Term) *Term { return t.Ule(a, b) })
	case token.GTR:
		return cmp(func(a, b uint64) bool { return a > b }, func(t *TermCtx, a, b *Term) *Term { return t.Ult(b, a) })
	case token.GEQ:
		return cmp(func(a, b uint64) bool { return a >= b }, func(t *TermCtx, a, b *Term) *Term { return t.Ule(b, a) })
	}
	panic(unsupported("int op " + op.String()))
}

func minu(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func asF(v Value) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case float32:
		return float64(x), true
	}
	return 0, false
}

func mkF(f float64, w uint8) Value {
	if w == 32 {
		return float32(f)
	}
	return f
}

func floatBinop(op token.Token, w uint8) binfn {
	ops := map[token.Token]Op{token.ADD: OFAdd, token.SUB: OFSub, token.MUL: OFMul, token.QUO: OFDiv}
	if o, ok := ops[op]; ok {
		return func(in *Interp, a, b Value) Value {
			x, ok1 := asF(a)
			y, ok2 := asF(b)
			if ok1 && ok2 {
				return mkF(evalF(o, x, y, w), w)
			}
			return simp(in.tc.FArith(o, in.toTerm(a, w), in.toTerm(b, w)))
		}
	}
	return func(in *Interp, a, b Value) Value {
		x, ok1 := asF(a)
		y, ok2 := asF(b)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
		}
		s, t := in.toTerm(a, w), in.toTerm(b, w)
		switch op {
		case token.LSS:
			return simp(in.tc.FLt(s, t))
		case token.LEQ:
			return simp(in.tc.FLe(s, t))
		case token.GTR:
			return simp(in.tc.FLt(t, s))
		case token.GEQ:
			return simp(in.tc.FLe(t, s))
		}
		panic(unsupported("float op " + op.String()))
	}
}

func (in *Interp) strLess(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	x, y := strBytes(a), strBytes(b)
	tc := in.tc
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	res := tc.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := in.toTerm(x[i], 8), in.toTerm(y[i], 8)
		res = tc.Ite(tc.Ult(p, q), tc.tTrue, tc.Ite(tc.Eq(p, q), res, tc.tFalse))
	}
	return simp(res)
}

func (in *Interp) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if strLen(a) != strLen(b) {
		return false
	}
	x, y := strBytes(a), strBytes(b)
	res := in.tc.tTrue
	for i := range x {
		if u, ok := x[i].(uint64); ok {
			if v, ok := y[i].(uint64); ok {
				if u != v {
					return false
				}
				continue
			}
		}
		res = in.tc.And(res, in.tc.Eq(in.toTerm(x[i], 8), in.toTerm(y[i], 8)))
		if res.isFalse() {
			return false
		}
	}
	return simp(res)
}

// eqVal compares two values of the same static type; result bool or *Term.
func (in *Interp) eqVal(a, b Value, t types.Type) Value {
	switch x := a.(type) {
	case string:
		return in.strEq(a, b)
	case *SymStr:
		return in.strEq(a, b)
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return simp(in.tc.Eq(in.toTerm(a, 1), in.toTerm(b, 1)))
	case uint64:
		if y, ok := b.(uint64); ok {
			return x == y
		}
		bt := b.(*Term)
		return simp(in.tc.Eq(in.tc.BV(x, bt.w), bt))
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
		return simp(in.tc.FEq(in.toTerm(a, 64), in.toTerm(b, 64)))
	case float32:
		if y, ok := b.(float32); ok {
			return x == y
		}
		return simp(in.tc.FEq(in.toTerm(a, 32), in.toTerm(b, 32)))
	case *Term:
		return simp(in.tc.Eq(x, in.toTerm(b, x.w)))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported("iface compare"))
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return in.eqVal(x.v, y.v, x.t)
	case Struct:
		y := b.(Struct)
		st := t.Underlying().(*types.Struct)
		res := in.tc.tTrue
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r := in.eqVal(x[i], y[i], st.Field(i).Type())
			res = in.tc.And(res, in.toTerm(r, 1))
			if res.isFalse() {
				return false
			}
		}
		return simp(res)
	case Array:
		y := b.(Array)
		et := t.Underlying().(*types.Array).Elem()
		res := in.tc.tTrue
		for i := range x {
			r := in.eqVal(x[i], y[i], et)
			res = in.tc.And(res, in.toTerm(r, 1))
			if res.isFalse() {
				return false
			}
		}
		return simp(res)
	case SliceV:
		// comparison with nil only
		y, _ := b.(SliceV)
		return x == nil && y == nil
	case *MapV:
		y, _ := b.(*MapV)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return x == y
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return x == y
		case *Native:
			return x == nil && y == nil
		case SymPtr:
			return x == in.toPtr(y)
		}
		return false
	case *Native:
		switch y := b.(type) {
		case *Native:
			return x == y
		case Ptr:
			return x == nil && y == nil
		}
		return false
	case *Closure, *Func, *NativeFn:
		return isNilFn(a) && isNilFn(b)
	case *ChanV:
		y, _ := b.(*ChanV)
		return x == y
	case UPtr:
		y, ok := b.(UPtr)
		if !ok {
			return false
		}
		return ptrOf(x.v) == ptrOf(y.v)
	case RType:
		y, ok := b.(RType)
		return ok && x.t == y.t
	case complex128:
		return x == b.(complex128)
	case nil:
		return b == nil
	}
	panic(unsupported(fmt.Sprintf("compare %T", a)))
}

func ptrOf(v Value) any {
	switch x := v.(type) {
	case nil:
		return Ptr(nil)
	case UPtr:
		return ptrOf(x.v)
	}
	return v
}

func isNilFn(v Value) bool {
	switch x := v.(type) {
	case *Closure:
		return x == nil
	case *Func:
		return x == nil
	case *NativeFn:
		return x == nil
	}
	return false
}

// ---- conversions ----

func convertFn(from, to types.Type) func(in *Interp, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if types.Identical(fu, tu) {
		return func(in *Interp, v Value) Value { return v }
	}
	fw, fs, fi := intInfo(from)
	tw, _, ti := intInfo(to)
	if fi && ti {
		return func(in *Interp, v Value) Value {
			if u, ok := v.(uint64); ok {
				if tw > fw && fs {
					return uint64(sx(u, fw)) & maskw(tw)
				}
				return u & maskw(tw)
			}
			t := in.toTerm(v, fw)
			if tw < fw {
				return simp(in.tc.Trunc(t, tw))
			}
			if fs {
				return simp(in.tc.SExt(t, tw))
			}
			return simp(in.tc.ZExt(t, tw))
		}
	}
	ffw, ff := isFloat(from)
	tfw, tf := isFloat(to)
	if fi && tf {
		return func(in *Interp, v Value) Value {
			if u, ok := v.(uint64); ok {
				if tfw == 32 {
					if fs {
						return float32(sx(u, fw))
					}
					return float32(u)
				}
				if fs {
					return float64(sx(u, fw))
				}
				return float64(u)
			}
			if fs {
				return simp(in.tc.SToF(in.toTerm(v, fw), tfw))
			}
			return simp(in.tc.UToF(in.toTerm(v, fw), tfw))
		}
	}
	_, ts, _ := intInfo(to)
	if ff && ti {
		return func(in *Interp, v Value) Value {
			if f, ok := asF(v); ok {
				if ts {
					return uint64(f2s(f, tw)) & maskw(tw)
				}
				return uint64(f) & maskw(tw)
			}
			if ts {
				return simp(in.tc.FToS(in.toTerm(v, ffw), tw))
			}
			return simp(in.tc.FToU(in.toTerm(v, ffw), tw))
		}
	}
	if ff && tf {
		return func(in *Interp, v Value) Value {
			if f, ok := asF(v); ok {
				return mkF(f, tfw)
			}
			return simp(in.tc.FtoF(in.toTerm(v, ffw), tfw))
		}
	}
	fstr, tstr := isString(from), isString(to)
	if fi && tstr {
		return func(in *Interp, v Value) Value {
			if u, ok := v.(uint64); ok {
				r := sx(u, fw)
				if !fs {
					r = int64(u)
				}
				if r < 0 || r > utf8.MaxRune {
					r = utf8.RuneError
				}
				return string(rune(r))
			}
			return in.runeToStr(in.toTerm(v, fw), fs)
		}
	}
	if fstr {
		if sl, ok := tu.(*types.Slice); ok {
			ew, _, _ := intInfo(sl.Elem())
			if ew == 8 {
				return func(in *Interp, v Value) Value {
					b := strBytes(v)
					n := make(SliceV, len(b), roundCap(len(b), 1))
					copy(n, b)
					fillZero(n)
					return n
				}
			}
			return func(in *Interp, v Value) Value { // []rune
				var out SliceV = SliceV{}
				it := &strIter{s: v}
				for {
					t := in.nextStr(it)
					if t[0] == false {
						return out
					}
					out = append(out, t[2])
				}
			}
		}
		if tstr {
			return func(in *Interp, v Value) Value { return v }
		}
	}
	if tstr {
		if sl, ok := fu.(*types.Slice); ok {
			ew, _, _ := intInfo(sl.Elem())
			if ew == 8 {
				return func(in *Interp, v Value) Value { return mkStr(v.(SliceV)) }
			}
			return func(in *Interp, v Value) Value { // []rune -> string
				var res Value = ""
				for _, r := range v.(SliceV) {
					if u, ok := r.(uint64); ok {
						res = strConcat(res, string(rune(sx(u, 32))))
					} else {
						res = strConcat(res, in.runeToStr(r.(*Term), true))
					}
				}
				return res
			}
		}
	}
	// pointers and unsafe
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(in *Interp, v Value) Value {
			if u, ok := v.(UPtr); ok {
				return u
			}
			return UPtr{v}
		}
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if _, ok := tu.(*types.Pointer); ok {
			return func(in *Interp, v Value) Value {
				u := v.(UPtr)
				if u.v == nil {
					return Ptr(nil)
				}
				return u.v
			}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return func(in *Interp, v Value) Value { return v }
	}
	return func(in *Interp, v Value) Value {
		switch v.(type) {
		case SliceV, *MapV, Struct, Array, Iface, *Closure, *Func, *ChanV:
			return v
		}
		panic(unsupported(fmt.Sprintf("convert %v to %v", from, to)))
	}
}

func fillZero(s SliceV) {
	f := s[:cap(s)]
	for i := len(s); i < len(f); i++ {
		if f[i] == nil {
			f[i] = uint64(0)
		}
	}
}

// runeToStr encodes a symbolic rune as UTF-8, forking on its length class.
func (in *Interp) runeToStr(t *Term, signed bool) Value {
	tc := in.tc
	if t.w < 32 {
		if signed {
			t = tc.SExt(t, 32)
		} else {
			t = tc.ZExt(t, 32)
		}
	} else if t.w > 32 {
		t = tc.Trunc(t, 32)
	}
	c := func(v uint64) *Term { return tc.BV(v, 32) }
	lt := func(v uint64) bool { return in.decide(tc.Ult(t, c(v))) }
	if lt(0x80) {
		return mkStr([]Value{simp(tc.Trunc(t, 8))})
	}
	or := func(a uint64, b *Term) Value { return simp(tc.Trunc(tc.Arith(OBOr, c(a), b), 8)) }
	sh := func(n uint64) *Term { return tc.Arith(OLShr, t, c(n)) }
	lo := func(x *Term) *Term { return tc.Arith(OBAnd, x, c(0x3f)) }
	if lt(0x800) {
		return mkStr([]Value{or(0xc0, sh(6)), or(0x80, lo(t))})
	}
	if in.decide(tc.Or(tc.And(tc.Ule(c(0xd800), t), tc.Ule(t, c(0xdfff))), tc.Ult(c(0x10ffff), t))) {
		return "\uFFFD"
	}
	if lt(0x10000) {
		return mkStr([]Value{or(0xe0, sh(12)), or(0x80, lo(sh(6))), or(0x80, lo(t))})
	}
	return mkStr([]Value{or(0xf0, sh(18)), or(0x80, lo(sh(12))), or(0x80, lo(sh(6))), or(0x80, lo(t))})
}

// ---- string iteration ----

type strIter struct {
	s Value
	i int
}

func (in *Interp) nextStr(it *strIter) Tuple {
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{false, uint64(0), uint64(0)}
	}
	pos := uint64(it.i)
	if s, ok := it.s.(string); ok {
		r, sz := utf8.DecodeRuneInString(s[it.i:])
		it.i += sz
		return Tuple{true, pos, uint64(uint32(r))}
	}
	b := it.s.(*SymStr).b
	r, sz := in.decodeRune(b[it.i:])
	it.i += sz
	return Tuple{true, pos, r}
}

// decodeRune decodes one rune of possibly symbolic bytes.
func (in *Interp) decodeRune(b []Value) (Value, int) {
	if len(b) == 0 {
		return uint64(utf8.RuneError), 0
	}
	// concrete prefix fast path
	k := len(b)
	if k > 4 {
		k = 4
	}
	if cb, ok := concBytes(b[:k]); ok {
		r, sz := utf8.DecodeRune(cb)
		return uint64(uint32(r)), sz
	}
	tc := in.tc
	b0 := in.toTerm(b[0], 8)
	if in.decide(tc.Ult(b0, tc.BV(0x80, 8))) {
		return simp(tc.ZExt(b0, 32)), 1
	}
	// general case: run the real decoder symbolically
	f := in.p.pkgs["unicode/utf8"].Func("DecodeRune")
	r := in.callSSA(in.p.fnOf(f), []Value{SliceV(b)}).(Tuple)
	sz := in.concInt(r[1])
	return r[0], int(sz)
}

// callSSA runs the SSA body even when an intrinsic exists.
func (in *Interp) callSSA(f *Func, args []Value) Value {
	if f.intr == nil {
		return in.callFn(f, args, nil)
	}
	in.p.mu.Lock()
	g, ok := in.p.funcs2[f.fn]
	if !ok {
		g = &Func{p: in.p, fn: f.fn, name: f.name, nparams: f.nparams, nfree: f.nfree, inRepo: f.inRepo}
		in.p.funcs2[f.fn] = g
	}
	in.p.mu.Unlock()
	return in.callFn(g, args, nil)
}

// ---- maps ----

func (in *Interp) mapFind(m *MapV, k Value) (*mapEnt, bool) {
	if m == nil {
		return nil, false
	}
	if iv, ok := k.(Iface); ok && iv.t != nil && !types.Comparable(iv.t) {
		in.rtPanic("hash of unhashable type " + iv.t.String())
	}
	i, found, conc := m.lookupConc(k)
	if conc {
		if found {
			return m.ents[i], true
		}
		if m.symK == 0 {
			return nil, false
		}
		// compare with the symbolic keys only
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			if _, ok := mapKey(e.k); ok {
				continue
			}
			if in.truth(in.eqVal(e.k, k, nil)) {
				return e, true
			}
		}
		return nil, false
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if in.truth(in.eqVal(e.k, k, nil)) {
			return e, true
		}
	}
	return nil, false
}

func (in *Interp) truth(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return in.decide(v.(*Term))
}

func (in *Interp) mapGet(m *MapV, k Value) (Value, bool) {
	in.raceMap(m, false)
	e, ok := in.mapFind(m, k)
	if !ok {
		return nil, false
	}
	return e.v, true
}

// mapMut snapshots the map the first time it is mutated in this path.
func (in *Interp) mapMut(m *MapV) {
	if !in.trailOn || m.epoch == in.epoch {
		return
	}
	oldEpoch := m.epoch
	m.epoch = in.epoch
	ents := make([]mapEnt, 0, len(m.ents))
	for _, e := range m.ents {
		ents = append(ents, *e)
	}
	old := *m
	in.onUndo(func() {
		m.epoch = oldEpoch
		m.idx = make(map[any]int, len(ents))
		m.ents = m.ents[:0:0]
		for i := range ents {
			e := ents[i]
			m.ents = append(m.ents, &e)
			if !e.dead {
				if key, ok := mapKey(e.k); ok {
					m.idx[key] = i
				}
			}
		}
		m.symK = old.symK
		m.n = old.n
	})
}

func (in *Interp) mapSet(m *MapV, k, v Value) {
	if m == nil {
		in.rtPanic("assignment to entry in nil map")
	}
	in.raceMap(m, true)
	in.mapMut(m)
	e, ok := in.mapFind(m, k)
	if ok {
		e.v = copyVal(v)
		return
	}
	key, conc := mapKey(k)
	m.ents = append(m.ents, &mapEnt{k: copyVal(k), v: copyVal(v)})
	m.n++
	if conc {
		m.idx[key] = len(m.ents) - 1
	} else {
		m.symK++
	}
}

func (in *Interp) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	in.raceMap(m, true)
	in.mapMut(m)
	e, ok := in.mapFind(m, k)
	if !ok {
		return
	}
	e.dead = true
	m.n--
	if key, conc := mapKey(e.k); conc {
		delete(m.idx, key)
	} else {
		m.symK--
	}
}

func (in *Interp) mapClear(m *MapV) {
	if m == nil {
		return
	}
	in.raceMap(m, true)
	in.mapMut(m)
	for _, e := range m.ents {
		e.dead = true
	}
	m.ents = nil
	m.idx = map[any]int{}
	m.n, m.symK = 0, 0
}

func (m *MapV) len() int {
	if m == nil {
		return 0
	}
	return m.n
}

func (m *MapV) live() []*mapEnt {
	if m == nil {
		return nil
	}
	out := make([]*mapEnt, 0, m.n)
	for _, e := range m.ents {
		if !e.dead {
			out = append(out, e)
		}
	}
	return out
}

type mapIter struct {
	m     *MapV
	pos   int
	order []*mapEnt // when the order is a choice
	free  bool
}

func (in *Interp) rangeIter(v Value, inRepo bool) Value {
	switch x := v.(type) {
	case string, *SymStr:
		return &strIter{s: x}
	case *MapV:
		it := &mapIter{m: x}
		in.raceMap(x, false)
		if inRepo && in.path != nil && x != nil && in.path.mapOrder != 0 && x.n >= 2 {
			live := x.live()
			switch in.path.mapOrder {
			case 1: // every permutation
				if len(live) <= in.path.mapOrderMax {
					it.free = true
				} else {
					// bounded: rotations and reversal
					k := in.choose("maporder", len(live)*2)
					n := len(live)
					perm := make([]*mapEnt, n)
					for i := range live {
						perm[i] = live[(i+k/2)%n]
					}
					if k%2 == 1 {
						for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
							perm[i], perm[j] = perm[j], perm[i]
						}
					}
					live = perm
				}
			case 3: // insertion order or its reverse, a choice at every loop
				if in.choose("maporder", 2) == 1 {
					for i, j := 0, len(live)-1; i < j; i, j = i+1, j-1 {
						live[i], live[j] = live[j], live[i]
					}
				}
			case 2: // insertion order or its reverse, one choice for the whole path
				if in.path.mapRev {
					for i, j := 0, len(live)-1; i < j; i, j = i+1, j-1 {
						live[i], live[j] = live[j], live[i]
					}
				}
			}
			it.order = live
		}
		return it
	}
	panic(unsupported(fmt.Sprintf("range over %T", v)))
}

func (in *Interp) nextMap(it *mapIter, zk, zv Value) Tuple {
	if it.order != nil {
		for it.pos < len(it.order) {
			if it.free {
				rest := it.order[it.pos:]
				if len(rest) > 1 {
					k := in.choose("maporder", len(rest))
					e := rest[k]
					copy(rest[1:k+1], rest[:k])
					rest[0] = e
				}
			}
			e := it.order[it.pos]
			it.pos++
			if !e.dead {
				return Tuple{true, copyVal(e.k), copyVal(e.v)}
			}
		}
		return Tuple{false, zk, zv}
	}
	if it.m != nil {
		for it.pos < len(it.m.ents) {
			e := it.m.ents[it.pos]
			it.pos++
			if !e.dead {
				return Tuple{true, copyVal(e.k), copyVal(e.v)}
			}
		}
	}
	return Tuple{false, zk, zv}
}

// ---- builtins ----

func roundCap(n, esz int) int {
	if n == 0 {
		return 0
	}
	sz := n * esz
	for _, c := range sizeClasses {
		if sz <= c {
			return c / esz
		}
	}
	pg := (sz + 8191) / 8192 * 8192
	return pg / esz
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growSlice appends with the growth policy of the Go runtime.
func (in *Interp) growSlice(s SliceV, add []Value, esz int, z Value) SliceV {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			in.storeElem(&r[len(s)+i], v)
		}
		return r
	}
	nc := cap(s)
	dbl := nc + nc
	if n > dbl {
		nc = n
	} else if cap(s) < 256 {
		nc = dbl
	} else {
		for nc < n {
			nc += (nc + 3*256) / 4
		}
	}
	if esz <= 0 {
		nc = n
	} else {
		nc = roundCap(nc, esz)
		if nc < n {
			nc = n
		}
	}
	r := make(SliceV, n, nc)
	copy(r, s)
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	// zero the spare capacity
	full := r[:nc]
	for i := n; i < nc; i++ {
		full[i] = copyVal(z)
	}
	return r
}

func (in *Interp) storeElem(p Ptr, v Value) {
	switch v.(type) {
	case Struct, Array:
		in.setCell(p, copyVal(v))
	default:
		in.setCell(p, v)
	}
}

var gcSizes = types.SizesFor("gc", "amd64")

func (c *fcomp) compBuiltin(name string, call *ssa.CallCommon, args []opnd, dst int) func(fr *frame) {
	set := func(fr *frame, v Value) {
		if dst >= 0 {
			fr.env[dst] = v
		}
	}
	noRace := c.f.noRace
	switch name {
	case "len", "cap":
		isCap := name == "cap"
		return func(fr *frame) {
			v := args[0].get(fr)
			var n int
			switch x := v.(type) {
			case string, *SymStr:
				n = strLen(x)
			case SliceV:
				n = len(x)
				if isCap {
					n = cap(x)
				}
			case *MapV:
				n = x.len()
			case Array:
				n = len(x)
			case Ptr:
				n = len((*x).(Array))
			case *ChanV:
				if x != nil {
					n = len(x.buf)
					if isCap {
						n = x.cap
					}
				}
			default:
				panic(unsupported(fmt.Sprintf("len of %T", v)))
			}
			set(fr, uint64(n))
		}
	case "append":
		if len(args) == 1 {
			return func(fr *frame) { set(fr, args[0].get(fr)) }
		}
		var esz int
		var z Value
		if sl, ok := call.Args[0].Type().Underlying().(*types.Slice); ok {
			if !hasTypeParam(sl.Elem()) {
				esz = int(gcSizes.Sizeof(sl.Elem()))
			} else {
				esz = 16
			}
			z = zero(sl.Elem())
		}
		return func(fr *frame) {
			s, _ := args[0].get(fr).(SliceV)
			var add []Value
			switch x := args[1].get(fr).(type) {
			case SliceV:
				add = x
			case string, *SymStr:
				add = strBytes(x)
			}
			if len(add) == 0 {
				set(fr, s)
				return
			}
			if fr.in.racing && !noRace {
				if sl, ok := args[1].get(fr).(SliceV); ok {
					fr.in.raceSlice(sl, false)
				}
				if n := len(s) + len(add); n <= cap(s) {
					fr.in.raceSlice(s[len(s):n], true)
				} else {
					fr.in.raceSlice(s, false)
				}
			}
			set(fr, fr.in.growSlice(s, add, esz, z))
		}
	case "copy":
		return func(fr *frame) {
			d := args[0].get(fr).(SliceV)
			var s []Value
			switch x := args[1].get(fr).(type) {
			case SliceV:
				s = x
			case string, *SymStr:
				s = strBytes(x)
			}
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			if n > 0 && fr.in.racing && !noRace {
				if sl, ok := args[1].get(fr).(SliceV); ok {
					fr.in.raceSlice(sl[:n], false)
				}
				fr.in.raceSlice(d[:n], true)
			}
			if n > 0 {
				tmp := make([]Value, n)
				for i := 0; i < n; i++ {
					tmp[i] = copyVal(s[i])
				}
				for i := 0; i < n; i++ {
					fr.in.setCell(&d[i], tmp[i])
				}
			}
			set(fr, uint64(n))
		}
	case "delete":
		return func(fr *frame) { fr.in.mapDelete(args[0].get(fr).(*MapV), args[1].get(fr)) }
	case "clear":
		return func(fr *frame) {
			switch x := args[0].get(fr).(type) {
			case *MapV:
				fr.in.mapClear(x)
			case SliceV:
				et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := range x {
					fr.in.setCell(&x[i], zero(et))
				}
			}
		}
	case "panic":
		return func(fr *frame) { panic(targetPanic{args[0].get(fr).(Iface)}) }
	case "recover":
		return func(fr *frame) { set(fr, fr.in.doRecover(fr)) }
	case "print", "println":
		return func(fr *frame) {}
	case "close":
		return func(fr *frame) { fr.in.chanClose(args[0].get(fr).(*ChanV)) }
	case "min", "max":
		t := call.Args[0].Type()
		less := binop(token.LSS, t, t)
		isMax := name == "max"
		return func(fr *frame) {
			r := args[0].get(fr)
			for i := 1; i < len(args); i++ {
				v := args[i].get(fr)
				var lt Value
				if isMax {
					lt = less(fr.in, r, v)
				} else {
					lt = less(fr.in, v, r)
				}
				if fr.in.truth(lt) {
					r = v
				}
			}
			set(fr, r)
		}
	case "ssa:wrapnilchk":
		return func(fr *frame) {
			v := args[0].get(fr)
			if p, ok := v.(Ptr); ok && p == nil {
				fr.in.rtPanic("value method called using nil pointer")
			}
			set(fr, v)
		}
	case "ssa:deferstack":
		return func(fr *frame) { set(fr, nil) }
	case "String": // unsafe.String
		return func(fr *frame) {
			p := args[0].get(fr)
			n := int(fr.in.concInt(args[1].get(fr)))
			set(fr, mkStr(unsafeRun(p, n)))
		}
	case "StringData", "SliceData":
		return func(fr *frame) {
			switch x := args[0].get(fr).(type) {
			case string, *SymStr:
				b := append([]Value(nil), strBytes(x)...)
				set(fr, &Native{kind: "data", v: b})
			case SliceV:
				set(fr, &Native{kind: "data", v: []Value(x)})
			}
		}
	case "Slice":
		return func(fr *frame) {
			n := int(fr.in.concInt(args[1].get(fr)))
			set(fr, SliceV(unsafeRun(args[0].get(fr), n)))
		}
	case "Sizeof", "Alignof":
		n := uint64(gcSizes.Sizeof(call.Args[0].Type()))
		if name == "Alignof" {
			n = uint64(gcSizes.Alignof(call.Args[0].Type()))
		}
		return func(fr *frame) { set(fr, n) }
	case "real", "imag", "complex":
		return func(fr *frame) { panic(unsupported("complex")) }
	}
	panic(unsupported("builtin " + name))
}

func hasTypeParam(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}

func unsafeRun(p Value, n int) []Value {
	if n == 0 {
		return []Value{}
	}
	switch x := p.(type) {
	case *Native:
		if x.kind == "data" {
			return x.v.([]Value)[:n:n]
		}
	case UPtr:
		return unsafeRun(x.v, n)
	case Ptr:
		if n >= 1 {
			return unsafe.Slice((*Value)(x), n) // the cells of a slice lie beside each other
		}
	}
	panic(unsupported(fmt.Sprintf("unsafe.String over %T", p)))
}

// concInt makes an integer concrete (forking over its feasible values) and sign-extends it.
func (in *Interp) concInt(v Value) int64 {
	switch x := v.(type) {
	case uint64:
		return int64(x)
	case *Term:
		return sx(in.concTerm(x), x.w)
	}
	panic(unsupported(fmt.Sprintf("concInt %T", v)))
}

// concStr makes a string concrete, forking over the feasible values of its bytes.
func (in *Interp) concStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		var sb strings.Builder
		for _, b := range s.b {
			switch x := b.(type) {
			case uint64:
				sb.WriteByte(byte(x))
			case *Term:
				sb.WriteByte(byte(in.concTerm(x)))
			}
		}
		return sb.String()
	}
	panic(unsupported(fmt.Sprintf("concStr %T", v)))
}

func (in *Interp) concFloat(v Value) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case float32:
		return float64(x)
	case *Term:
		if t := in.tc.exactInt(x); t != nil {
			return float64(sx(in.concTerm(t), 64))
		}
		// enumerate through the term value
		val := in.concTermF(x)
		return math.Float64frombits(val)
	}
	panic(unsupported("concFloat"))
}
