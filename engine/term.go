package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Hash-consed SMT terms with local simplification, interval analysis and an evaluator.

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KFP // width 64 or 32
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OTrunc
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OSToF  // signed bv -> fp
	OUToF  // unsigned bv -> fp
	OFToS  // fp -> signed bv (amd64 semantics for out of range)
	OFToU  // fp -> unsigned bv
	OFBits // bits -> fp (reinterpret)
	OFtoF  // fp -> fp other width
	ORange // identity; the path conditions imply the range
)

type Term struct {
	op      Op
	kind    Kind
	w       uint8
	a, b, c *Term
	val     uint64
	id      int32
	h       uint64 // structural hash: the same in every context
	name    string
	vars    []int32 // sorted ids of variables occurring
	umin    uint64
	umax    uint64
	smin    int64
	smax    int64
	ev      uint64
	egen    int64
	emitted int32
}

type tkey struct {
	op      Op
	kind    Kind
	w       uint8
	a, b, c int32
	val     uint64
}

type TermCtx struct {
	tab    map[tkey]*Term
	byID   []*Term
	vars   map[string]*Term
	tTrue  *Term
	tFalse *Term
	egen   int64
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	c.tTrue = c.mk(tkey{op: OConst, kind: KBool, val: 1}, nil, nil, nil)
	c.tFalse = c.mk(tkey{op: OConst, kind: KBool, val: 0}, nil, nil, nil)
	return c
}

func maskw(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func smaxw(w uint8) int64 { return int64(maskw(w) >> 1) }
func sminw(w uint8) int64 { return -smaxw(w) - 1 }

func id(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast path
	i, j := 0, 0
	n := 0
	for i < len(a) && j < len(b) {
		if a[i] < b[j] {
			i++
		} else if a[i] > b[j] {
			j++
		} else {
			i++
			j++
			n++
		}
	}
	if n == len(b) {
		return a
	}
	if n == len(a) {
		return b
	}
	out := make([]int32, 0, len(a)+len(b)-n)
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>33
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h, uint64(len(s)))
}

func hashTerm(t *Term) uint64 {
	h := mix(uint64(t.op)<<16|uint64(t.kind)<<8|uint64(t.w), t.val)
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x == nil {
			h = mix(h, 1)
		} else {
			h = mix(h, x.h)
		}
	}
	return h
}

// after orders the operands of commutative operators: by structure, so that every worker and every
// replay of a path builds the same terms.
func after(a, b *Term) bool {
	if a.h != b.h {
		return a.h > b.h
	}
	return a.id > b.id
}

func (c *TermCtx) mk(k tkey, a, b, d *Term) *Term {
	k.a, k.b, k.c = id(a), id(b), id(d)
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, kind: k.kind, w: k.w, a: a, b: b, c: d, val: k.val, id: int32(len(c.byID))}
	t.h = hashTerm(t)
	c.byID = append(c.byID, t)
	c.tab[k] = t
	if a != nil {
		t.vars = a.vars
		if b != nil {
			t.vars = mergeVars(t.vars, b.vars)
		}
		if d != nil {
			t.vars = mergeVars(t.vars, d.vars)
		}
	}
	c.setRange(t)
	return t
}

func (c *TermCtx) setRange(t *Term) {
	if t.kind != KBV {
		return
	}
	w := t.w
	t.umin, t.umax = 0, maskw(w)
	t.smin, t.smax = sminw(w), smaxw(w)
	setU := func(lo, hi uint64) {
		t.umin, t.umax = lo, hi
		if hi <= uint64(smaxw(w)) {
			t.smin, t.smax = int64(lo), int64(hi)
		} else if lo > uint64(smaxw(w)) {
			t.smin, t.smax = sx(lo, w), sx(hi, w)
		}
	}
	setS := func(lo, hi int64) {
		t.smin, t.smax = lo, hi
		if lo >= 0 {
			t.umin, t.umax = uint64(lo), uint64(hi)
		} else if hi < 0 {
			t.umin, t.umax = uint64(lo)&maskw(w), uint64(hi)&maskw(w)
		}
	}
	switch t.op {
	case OConst:
		setU(t.val, t.val)
	case ORange:
		setS(sx(t.b.val, w), sx(t.c.val, w))
	case OZExt:
		setU(t.a.umin, t.a.umax)
	case OSExt:
		setS(t.a.smin, t.a.smax)
	case OTrunc:
		if t.a.umax <= maskw(w) {
			setU(t.a.umin, t.a.umax)
		} else if t.a.smin >= sminw(w) && t.a.smax <= smaxw(w) {
			setS(t.a.smin, t.a.smax)
		}
	case OIte:
		lo, hi := t.b.smin, t.b.smax
		if t.c.smin < lo {
			lo = t.c.smin
		}
		if t.c.smax > hi {
			hi = t.c.smax
		}
		setS(lo, hi)
		ul, uh := t.b.umin, t.b.umax
		if t.c.umin < ul {
			ul = t.c.umin
		}
		if t.c.umax > uh {
			uh = t.c.umax
		}
		t.umin, t.umax = ul, uh
	case OAdd:
		lo, o1 := addOv(t.a.smin, t.b.smin, w)
		hi, o2 := addOv(t.a.smax, t.b.smax, w)
		if !o1 && !o2 {
			setS(lo, hi)
		} else if t.a.umax+t.b.umax >= t.a.umax && t.a.umax+t.b.umax <= maskw(w) {
			setU(t.a.umin+t.b.umin, t.a.umax+t.b.umax)
		}
	case OSub:
		lo, o1 := addOv(t.a.smin, -t.b.smax, w)
		hi, o2 := addOv(t.a.smax, -t.b.smin, w)
		if !o1 && !o2 && t.b.smin != math.MinInt64 {
			setS(lo, hi)
		}
	case OMul:
		if t.a.smin >= 0 && t.b.smin >= 0 {
			h, l := bits.Mul64(uint64(t.a.smax), uint64(t.b.smax))
			if h == 0 && l <= uint64(smaxw(w)) {
				setS(t.a.smin*t.b.smin, int64(l))
			}
		} else if lim := int64(1) << 31; t.a.smin > -lim && t.a.smax < lim && t.b.smin > -lim && t.b.smax < lim {
			lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
			for _, x := range [...]int64{t.a.smin, t.a.smax} {
				for _, y := range [...]int64{t.b.smin, t.b.smax} {
					lo, hi = min(lo, x*y), max(hi, x*y)
				}
			}
			if lo >= sminw(w) && hi <= smaxw(w) {
				setS(lo, hi)
			}
		}
	case OUDiv:
		if t.b.umin > 0 {
			setU(t.a.umin/t.b.umax, t.a.umax/t.b.umin)
		}
	case OURem:
		if t.b.umin > 0 {
			hi := t.b.umax - 1
			if t.a.umax < hi {
				hi = t.a.umax
			}
			setU(0, hi)
		}
	case OSDiv:
		if t.b.op == OConst && t.b.smin > 0 {
			setS(t.a.smin/t.b.smin, t.a.smax/t.b.smin)
		}
	case OSRem:
		if t.b.op == OConst && t.b.smin > 0 {
			lo, hi := -(t.b.smin - 1), t.b.smin-1
			if t.a.smin >= 0 {
				lo = 0
			}
			if t.a.smax <= 0 {
				hi = 0
			}
			setS(lo, hi)
		}
	case OBAnd:
		m := t.a.umax
		if t.b.umax < m {
			m = t.b.umax
		}
		setU(0, m)
	case OBOr, OBXor:
		m := t.a.umax | t.b.umax
		if m != 0 {
			m = 1<<bits.Len64(m) - 1
			if bits.Len64(t.a.umax|t.b.umax) == 64 {
				m = ^uint64(0)
			}
		}
		if m <= maskw(w) {
			setU(0, m)
		}
	case OLShr:
		if t.b.op == OConst && t.b.val < uint64(w) {
			setU(t.a.umin>>t.b.val, t.a.umax>>t.b.val)
		}
	case OShl:
		if t.b.op == OConst && t.b.val < uint64(w) {
			if bits.Len64(t.a.umax)+int(t.b.val) <= int(w) {
				setU(t.a.umin<<t.b.val, t.a.umax<<t.b.val)
			}
		}
	case OAShr:
		if t.b.op == OConst && t.b.val < 64 {
			setS(t.a.smin>>t.b.val, t.a.smax>>t.b.val)
		}
	}
}

func addOv(a, b int64, w uint8) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, true
	}
	return s, s < sminw(w) || s > smaxw(w)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}
func (c *TermCtx) BV(v uint64, w uint8) *Term {
	return c.mk(tkey{op: OConst, kind: KBV, w: w, val: v & maskw(w)}, nil, nil, nil)
}
func (c *TermCtx) FP64(f float64) *Term {
	return c.mk(tkey{op: OConst, kind: KFP, w: 64, val: math.Float64bits(f)}, nil, nil, nil)
}
func (c *TermCtx) FP32(f float32) *Term {
	return c.mk(tkey{op: OConst, kind: KFP, w: 32, val: uint64(math.Float32bits(f))}, nil, nil, nil)
}

// Var declares (or returns) a variable. For KBV variables lo/hi bound the signed value when w>8, unsigned when w<=8.
func (c *TermCtx) Var(name string, kind Kind, w uint8, lo, hi int64) *Term {
	key := fmt.Sprintf("%s_%d_%d_%d_%d", name, kind, w, lo, hi)
	if t, ok := c.vars[key]; ok {
		return t
	}
	t := &Term{op: OVar, kind: kind, w: w, name: key, id: int32(len(c.byID))}
	// SMT-friendly name
	nm := []byte(key)
	for i, ch := range nm {
		if ch == '-' {
			nm[i] = 'm'
		}
	}
	t.name = string(nm)
	t.h = hashStr(key)
	c.byID = append(c.byID, t)
	c.vars[key] = t
	t.vars = []int32{t.id}
	if kind == KBV {
		if w <= 8 {
			t.umin, t.umax = uint64(lo), uint64(hi)
			t.smin, t.smax = sminw(w), smaxw(w)
			if hi <= smaxw(w) {
				t.smin, t.smax = lo, hi
			}
		} else {
			t.smin, t.smax = lo, hi
			t.umin, t.umax = 0, maskw(w)
			if lo >= 0 {
				t.umin, t.umax = uint64(lo), uint64(hi)
			}
		}
		t.val = uint64(lo) & maskw(w) // default value
		if lo <= 0 && hi >= 0 {
			t.val = 0
		}
	}
	return t
}

func (c *TermCtx) un(op Op, kind Kind, w uint8, a *Term) *Term {
	return c.mk(tkey{op: op, kind: kind, w: w}, a, nil, nil)
}
func (c *TermCtx) bin(op Op, kind Kind, w uint8, a, b *Term) *Term {
	return c.mk(tkey{op: op, kind: kind, w: w}, a, b, nil)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.kind == KBool && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.kind == KBool && t.val == 0 }

func (c *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.un(ONot, KBool, 1, a)
}
func (c *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.tFalse
	}
	return c.bin(OAnd, KBool, 1, a, b)
}
func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.tTrue
	}
	return c.bin(OOr, KBool, 1, a, b)
}
func (c *TermCtx) Ite(k, a, b *Term) *Term {
	if k.isConst() {
		if k.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.kind == KBool {
		if a.isTrue() {
			return c.Or(k, b)
		}
		if a.isFalse() {
			return c.And(c.Not(k), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(k), a)
		}
		if b.isFalse() {
			return c.And(k, a)
		}
	}
	if k.op == ONot {
		return c.Ite(k.a, b, a)
	}
	return c.mk(tkey{op: OIte, kind: a.kind, w: a.w}, k, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b && a.kind != KFP {
		return c.tTrue
	}
	if a.kind == KFP {
		return c.FEq(a, b)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.kind == KBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
		if after(a, b) {
			a, b = b, a
		}
		return c.bin(OEq, KBool, 1, a, b)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.umax < b.umin || b.umax < a.umin || a.smax < b.smin || b.smax < a.smin {
		return c.tFalse
	}
	if a.op == ORange || b.op == ORange {
		return c.Eq(strip(a), strip(b))
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			if b.val > maskw(a.a.w) {
				return c.tFalse
			}
			return c.Eq(a.a, c.BV(b.val, a.a.w))
		case OSExt:
			if v := sx(b.val, b.w); v < sminw(a.a.w) || v > smaxw(a.a.w) {
				return c.tFalse
			}
			return c.Eq(a.a, c.BV(b.val, a.a.w))
		case OAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.BV(b.val-a.b.val, a.w))
			}
		case OSub:
			if a.b.isConst() {
				return c.Eq(a.a, c.BV(b.val+a.b.val, a.w))
			}
		case OBXor:
			if a.b.isConst() {
				return c.Eq(a.a, c.BV(b.val^a.b.val, a.w))
			}
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
	}
	if after(a, b) && !b.isConst() {
		a, b = b, a
	}
	return c.bin(OEq, KBool, 1, a, b)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(a.val < b.val)
	}
	if a == b {
		return c.tFalse
	}
	if a.umax < b.umin {
		return c.tTrue
	}
	if a.umin >= b.umax {
		return c.tFalse
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if a.op == OZExt && b.isConst() && b.val <= maskw(a.a.w) {
		return c.Ult(a.a, c.BV(b.val, a.a.w))
	}
	if b.op == OZExt && a.isConst() && a.val <= maskw(b.a.w) {
		return c.Ult(c.BV(a.val, b.a.w), b.a)
	}
	return c.bin(OUlt, KBool, 1, a, b)
}
func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *TermCtx) Slt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if a == b {
		return c.tFalse
	}
	if a.smax < b.smin {
		return c.tTrue
	}
	if a.smin >= b.smax {
		return c.tFalse
	}
	if a.smin >= 0 && b.smin >= 0 {
		return c.Ult(a, b)
	}
	return c.bin(OSlt, KBool, 1, a, b)
}
func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *TermCtx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(a.val, w)
	}
	if a.op == OZExt {
		return c.ZExt(a.a, w)
	}
	return c.un(OZExt, KBV, w, a)
}
func (c *TermCtx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(uint64(sx(a.val, a.w)), w)
	}
	if a.op == OZExt && a.w > a.a.w {
		return c.ZExt(a.a, w)
	}
	if a.smin >= 0 {
		return c.ZExt(a, w)
	}
	if a.op == OSExt {
		return c.SExt(a.a, w)
	}
	return c.un(OSExt, KBV, w, a)
}
func (c *TermCtx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(a.val, w)
	}
	switch a.op {
	case OZExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		return c.ZExt(a.a, w)
	case OSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		return c.SExt(a.a, w)
	case OTrunc:
		return c.Trunc(a.a, w)
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
		}
	case OAdd:
		return c.Arith(OAdd, c.Trunc(a.a, w), c.Trunc(a.b, w))
	case OSub:
		return c.Arith(OSub, c.Trunc(a.a, w), c.Trunc(a.b, w))
	case OBAnd, OBOr, OBXor:
		return c.Arith(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
	}
	return c.un(OTrunc, KBV, w, a)
}

func evalBV(op Op, a, b uint64, w uint8) uint64 {
	m := maskw(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	}
	panic("evalBV")
}

// Arith builds a width-preserving BV operation.
func (c *TermCtx) Arith(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.BV(evalBV(op, a.val, b.val, w), w)
	}
	comm := op == OAdd || op == OMul || op == OBAnd || op == OBOr || op == OBXor
	if comm && a.isConst() {
		a, b = b, a
	}
	switch op {
	case OAdd:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return c.Arith(OAdd, a.a, c.BV(a.b.val+b.val, w))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return c.Ite(a.a, c.Arith(op, a.b, b), c.Arith(op, a.c, b))
			}
		} else if a.op == OAdd && a.b.isConst() {
			return c.Arith(OAdd, c.Arith(OAdd, a.a, b), a.b)
		} else if b.op == OAdd && b.b.isConst() {
			return c.Arith(OAdd, c.Arith(OAdd, a, b.a), b.b)
		}
	case OSub:
		if a == b {
			return c.BV(0, w)
		}
		if b.isConst() {
			return c.Arith(OAdd, a, c.BV(-b.val, w))
		}
		if a.isConst() && a.val == 0 {
			if x := strip(b); x.op == OSub && x.a.isConst() && x.a.val == 0 {
				if b.smin > math.MinInt64 {
					return c.Range(x.b, -b.smax, -b.smin)
				}
				return x.b
			}
			if b.op == OMul && b.b.isConst() {
				return c.Arith(OMul, b.a, c.BV(-b.b.val, w))
			}
		}
		if b.op == OMul && b.b.isConst() && b.a.op == OUDiv && b.a.a == a && b.a.b == b.b {
			return c.Arith(OURem, a, b.b)
		}
	case OMul:
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if a.op == OMul && a.b.isConst() {
				return c.Arith(OMul, a.a, c.BV(a.b.val*b.val, w))
			}
			if a.op == OAdd && a.b.isConst() {
				return c.Arith(OAdd, c.Arith(OMul, a.a, b), c.BV(a.b.val*b.val, w))
			}
		}
	case OUDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if b.isConst() && b.val > 0 && a.umax < b.val {
			return c.BV(0, w)
		}
		if b.isConst() && b.val&(b.val-1) == 0 && b.val > 0 {
			return c.Arith(OLShr, a, c.BV(uint64(bits.TrailingZeros64(b.val)), w))
		}
		if b.isConst() && a.op == OUDiv && a.b.isConst() {
			h, l := bits.Mul64(b.val, a.b.val)
			if h == 0 && l <= maskw(w) && l > 0 {
				return c.Arith(OUDiv, a.a, c.BV(l, w))
			}
		}
		if b.isConst() && b.val > 0 {
			if q, r, ok := c.divLin(a, b.val); ok {
				return c.Arith(OAdd, q, c.Arith(OUDiv, r, b))
			}
		}
	case OURem:
		if b.isConst() && b.val == 1 {
			return c.BV(0, w)
		}
		if b.isConst() && b.val > 0 && a.umax < b.val {
			return a
		}
		if b.isConst() && b.val&(b.val-1) == 0 && b.val > 0 {
			return c.Arith(OBAnd, a, c.BV(b.val-1, w))
		}
		if b.isConst() && b.val > 0 && a.op == OURem && a.b.isConst() && a.b.val > 0 && a.b.val%b.val == 0 {
			return c.Arith(OURem, a.a, b)
		}
		if b.isConst() && b.val > 0 {
			if _, r, ok := c.divLin(a, b.val); ok {
				return c.Arith(OURem, r, b)
			}
		}
	case OSDiv:
		if a.smin >= 0 && b.smin >= 0 {
			return c.Arith(OUDiv, a, b)
		}
	case OSRem:
		if a.smin >= 0 && b.smin >= 0 {
			return c.Arith(OURem, a, b)
		}
	case OBAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == maskw(w) {
				return a
			}
			// mask covering the whole range of a
			if b.val&(b.val+1) == 0 && a.umax <= b.val {
				return a
			}
		}
	case OBOr, OBXor:
		if a == b {
			if op == OBOr {
				return a
			}
			return c.BV(0, w)
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OShl, OLShr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && b.val >= uint64(w) {
			return c.BV(0, w)
		}
	case OAShr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if a.smin >= 0 {
			return c.Arith(OLShr, a, b)
		}
	}
	if comm && !b.isConst() && after(a, b) {
		a, b = b, a
	}
	return c.bin(op, KBV, w, a, b)
}

// linear forms: the integer value of a term as a sum of coefficients times terms, when nothing wraps.

type mono struct {
	t *Term // value: the unsigned number
	k int64
}

const linLim = int64(1) << 60

type linForm struct {
	m []mono
	k int64
}

func (l *linForm) add(t *Term, k int64) {
	for i := range l.m {
		if l.m[i].t == t {
			l.m[i].k += k
			return
		}
	}
	l.m = append(l.m, mono{t, k})
}

// bounds gives the range of the form over the integers.
func (l *linForm) bounds() (lo, hi int64, ok bool) {
	lo, hi = l.k, l.k
	if lo > linLim || lo < -linLim {
		return 0, 0, false
	}
	for _, m := range l.m {
		if m.t.umax >= uint64(linLim) || m.k >= linLim || m.k <= -linLim {
			return 0, 0, false
		}
		ak := m.k
		if ak < 0 {
			ak = -ak
		}
		h, x := bits.Mul64(m.t.umax, uint64(ak))
		if h != 0 || x >= uint64(linLim) {
			return 0, 0, false
		}
		a, b := int64(m.t.umin)*m.k, int64(m.t.umax)*m.k
		if a > b {
			a, b = b, a
		}
		lo += a
		hi += b
		if lo < -linLim || hi > linLim {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// linear returns the form whose value modulo 2^w is t.
func (c *TermCtx) linear(t *Term, k int64, l *linForm, depth int) bool {
	if depth > 24 || len(l.m) > 16 || k >= linLim || k <= -linLim {
		return false
	}
	mul := func(a, b int64) (int64, bool) {
		if a == 0 || b == 0 {
			return 0, true
		}
		r := a * b
		return r, r/b == a && r < linLim && r > -linLim
	}
	switch t.op {
	case OConst:
		v, ok := mul(sx(t.val, t.w), k)
		l.k += v
		return ok && l.k < linLim && l.k > -linLim
	case OAdd:
		return c.linear(t.a, k, l, depth+1) && c.linear(t.b, k, l, depth+1)
	case OSub:
		return c.linear(t.a, k, l, depth+1) && c.linear(t.b, -k, l, depth+1)
	case OMul:
		if t.b.isConst() {
			v, ok := mul(sx(t.b.val, t.w), k)
			return ok && c.linear(t.a, v, l, depth+1)
		}
	case ORange:
		var in linForm
		if c.linear(t.a, 1, &in, depth+1) {
			if lo, hi, ok := in.bounds(); ok && lo >= 0 && uint64(hi) <= maskw(t.w) {
				return c.linear(t.a, k, l, depth+1)
			}
		}
	case OZExt, OSExt:
		var in linForm
		if (t.a.op == OAdd || t.a.op == OSub || t.a.op == OMul) && c.linear(t.a, 1, &in, depth+1) {
			lo, hi, ok := in.bounds()
			if ok && (t.op == OZExt && lo >= 0 && uint64(hi) <= maskw(t.a.w) || t.op == OSExt && lo >= sminw(t.a.w) && hi <= smaxw(t.a.w)) {
				for _, m := range in.m {
					v, ok := mul(m.k, k)
					if !ok {
						return false
					}
					l.add(m.t, v)
				}
				v, ok := mul(in.k, k)
				l.k += v
				return ok && l.k < linLim && l.k > -linLim
			}
		}
		if t.a.smin >= 0 || t.op == OZExt {
			l.add(t.a, k)
			return true
		}
		return false
	}
	if t.smin < 0 && t.umax > uint64(linLim) {
		return false
	}
	l.add(t, k)
	return true
}

// toTerm builds the form at width w.
func (c *TermCtx) fromLin(l *linForm, w uint8) *Term {
	r := c.BV(uint64(l.k), w)
	for _, m := range l.m {
		if m.k == 0 {
			continue
		}
		x := m.t
		if x.w < w {
			x = c.ZExt(x, w)
		} else if x.w > w {
			x = c.Trunc(x, w)
		}
		r = c.Arith(OAdd, r, c.Arith(OMul, x, c.BV(uint64(m.k), w)))
	}
	return r
}

// divLin splits a = m*q + r with r >= 0 and q not zero, as terms, when a is a sum whose parts divide evenly.
func (c *TermCtx) divLin(a *Term, m uint64) (q, r *Term, ok bool) {
	if a.op != OAdd && a.op != OMul && a.op != OSub && a.op != OZExt && a.op != OSExt || m >= uint64(linLim) || m < 2 {
		return nil, nil, false
	}
	if a.op == OAdd && a.b.isConst() && a.umin >= m && (a.umin >= uint64(linLim) || a.umax >= uint64(linLim)) {
		// reduce a huge constant
		k := a.umin / m
		return c.BV(k, a.w), c.Arith(OAdd, a, c.BV(-(k*m), a.w)), true
	}
	var l linForm
	if !c.linear(a, 1, &l, 0) {
		return nil, nil, false
	}
	lo, hi, bok := l.bounds()
	if !bok || lo < 0 || uint64(hi) > maskw(a.w) {
		return nil, nil, false
	}
	var ql, rl linForm
	for _, x := range l.m {
		if x.k%int64(m) == 0 {
			if x.k != 0 {
				ql.m = append(ql.m, mono{x.t, x.k / int64(m)})
			}
		} else {
			rl.m = append(rl.m, x)
		}
	}
	rlo, rhi, bok := rl.bounds()
	if !bok {
		return nil, nil, false
	}
	rlo += l.k
	rhi += l.k
	kq := rlo / int64(m)
	if rlo < 0 && rlo%int64(m) != 0 {
		kq--
	}
	ql.k = kq
	rl.k = l.k - kq*int64(m)
	if len(ql.m) == 0 && ql.k == 0 {
		return nil, nil, false
	}
	if rhi-kq*int64(m) > int64(maskw(a.w)>>1) && a.w < 64 {
		return nil, nil, false
	}
	return c.fromLin(&ql, a.w), c.fromLin(&rl, a.w), true
}

func (c *TermCtx) BNot(a *Term) *Term { return c.Arith(OBXor, a, c.BV(maskw(a.w), a.w)) }
func (c *TermCtx) Neg(a *Term) *Term  { return c.Arith(OSub, c.BV(0, a.w), a) }

// ---- floating point ----

func fval(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}
func (c *TermCtx) FPc(f float64, w uint8) *Term {
	if w == 32 {
		return c.FP32(float32(f))
	}
	return c.FP64(f)
}

// exact reports whether the term is an integer converted exactly; returns the 64-bit signed integer.
func (c *TermCtx) exactInt(t *Term) *Term {
	const lim = 1 << 52
	if t.kind != KFP || t.w != 64 {
		return nil
	}
	if t.op == OSToF && t.a.smin > -lim && t.a.smax < lim {
		return c.SExt(t.a, 64)
	}
	if t.op == OUToF && t.a.umax < lim {
		return c.ZExt(t.a, 64)
	}
	if t.op == OConst {
		f := fval(t)
		if f == math.Trunc(f) && math.Abs(f) < lim && !(f == 0 && math.Signbit(f)) {
			return c.BV(uint64(int64(f)), 64)
		}
	}
	return nil
}

var pow10i = [...]int64{1, 10, 100, 1000, 10000, 100000, 1000000}

// decForm recognises a float which is N / 10^k rounded to nearest, with |N| < 2^30*10^4 so that different N give
// different floats; the value is minus zero exactly when flip holds and N is zero.
func (c *TermCtx) decForm(t *Term) (n *Term, k int, flip, ok bool) {
	if t.kind != KFP || t.w != 64 {
		return
	}
	if t.op == OFNeg {
		n, k, flip, ok = c.decForm(t.a)
		if ok {
			n = c.Neg(n)
			flip = !flip
		}
		return
	}
	if t.op == OFDiv && t.b.isConst() {
		n, k, flip, ok = c.decForm(t.a)
		d := fval(t.b)
		if !ok || k != 0 || d < 1 || d > 10000 || d != math.Trunc(d) || n.smin < -1<<30 || n.smax > 1<<30 {
			return nil, 0, false, false
		}
		for k = 0; k <= 4; k++ {
			if pow10i[k]%int64(d) == 0 {
				return c.Arith(OMul, n, c.BV(uint64(pow10i[k]/int64(d)), 64)), k, flip, true
			}
		}
		return nil, 0, false, false
	}
	if x := c.exactInt(t); x != nil {
		return x, 0, false, true
	}
	if t.op == OConst {
		f := fval(t)
		for k = 1; k <= 4; k++ {
			m := math.Round(f * float64(pow10i[k]))
			if math.Abs(m) < 1<<40 && m/float64(pow10i[k]) == f {
				return c.BV(uint64(int64(m)), 64), k, false, !(f == 0 && math.Signbit(f))
			}
		}
	}
	return nil, 0, false, false
}

// decPair brings two floats to the same power of ten.
func (c *TermCtx) decPair(a, b *Term) (x, y *Term, ok bool) {
	x, i, _, ok1 := c.decForm(a)
	if !ok1 {
		return nil, nil, false
	}
	y, j, _, ok2 := c.decForm(b)
	if !ok2 || i == 0 && j == 0 {
		return nil, nil, false
	}
	const lim = 1 << 45
	if x.smin < -lim || x.smax > lim || y.smin < -lim || y.smax > lim {
		return nil, nil, false
	}
	for ; i < j; i++ {
		x = c.Arith(OMul, x, c.BV(10, 64))
	}
	for ; j < i; j++ {
		y = c.Arith(OMul, y, c.BV(10, 64))
	}
	return x, y, true
}

func (c *TermCtx) FArith(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.FPc(evalF(op, fval(a), fval(b), w), w)
	}
	if b.isConst() && fval(b) == 1 && (op == OFDiv || op == OFMul) {
		return a
	}
	if op == OFMul && w == 64 {
		if a.isConst() {
			a, b = b, a
		}
		if x := c.exactInt(a); x != nil && b.isConst() && fval(b) > 0 {
			if y := c.exactInt(b); y != nil && x.smin > -1<<25 && x.smax < 1<<25 && y.smax < 1<<25 {
				return c.SToF(c.Arith(OMul, x, y), w)
			}
		}
	}
	if x, y := c.exactInt(a), c.exactInt(b); x != nil && y != nil && (op == OFAdd || op == OFSub) {
		o := OAdd
		if op == OFSub {
			o = OSub
		}
		r := c.Arith(o, x, y)
		// -0 cannot arise: x-x = +0 under RNE
		return c.SToF(r, w)
	}
	return c.bin(op, KFP, w, a, b)
}
func evalF(op Op, a, b float64, w uint8) float64 {
	if w == 32 {
		x, y := float32(a), float32(b)
		switch op {
		case OFAdd:
			return float64(x + y)
		case OFSub:
			return float64(x - y)
		case OFMul:
			return float64(x * y)
		case OFDiv:
			return float64(x / y)
		}
	}
	switch op {
	case OFAdd:
		return a + b
	case OFSub:
		return a - b
	case OFMul:
		return a * b
	case OFDiv:
		return a / b
	}
	panic("evalF")
}
func (c *TermCtx) FNeg(a *Term) *Term {
	if a.isConst() {
		return c.FPc(-fval(a), a.w)
	}
	return c.un(OFNeg, KFP, a.w, a)
}
func (c *TermCtx) FEq(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(fval(a) == fval(b))
	}
	if x, y := c.exactInt(a), c.exactInt(b); x != nil && y != nil {
		return c.Eq(x, y)
	}
	if x := c.exactInt(a); x != nil && b.isConst() {
		return c.tFalse // b is not an exact integer
	}
	if y := c.exactInt(b); y != nil && a.isConst() {
		return c.tFalse
	}
	if x, y, ok := c.decPair(a, b); ok {
		return c.Eq(x, y)
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.bin(OFEq, KBool, 1, a, b)
}
func (c *TermCtx) FLt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(fval(a) < fval(b))
	}
	if x, y := c.exactInt(a), c.exactInt(b); x != nil && y != nil {
		return c.Slt(x, y)
	}
	if x := c.exactInt(a); x != nil && b.isConst() {
		// int < const noninteger  <=> int <= floor
		f := fval(b)
		if math.IsNaN(f) {
			return c.tFalse
		}
		if math.IsInf(f, 0) || math.Abs(f) >= 1<<52 {
			return c.Bool(f > 0)
		}
		return c.Sle(x, c.BV(uint64(int64(math.Floor(f))), 64))
	}
	if y := c.exactInt(b); y != nil && a.isConst() {
		f := fval(a)
		if math.IsNaN(f) {
			return c.tFalse
		}
		if math.IsInf(f, 0) || math.Abs(f) >= 1<<52 {
			return c.Bool(f < 0)
		}
		return c.Sle(c.BV(uint64(int64(math.Ceil(f))), 64), y)
	}
	if x, y, ok := c.decPair(a, b); ok {
		return c.Slt(x, y)
	}
	return c.bin(OFLt, KBool, 1, a, b)
}
func (c *TermCtx) FLe(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(fval(a) <= fval(b))
	}
	if x, y := c.exactInt(a), c.exactInt(b); x != nil && y != nil {
		return c.Sle(x, y)
	}
	if x, y, ok := c.decPair(a, b); ok {
		return c.Sle(x, y)
	}
	return c.bin(OFLe, KBool, 1, a, b)
}

// Range is t, known on this path to be in [lo,hi] (signed).
func (c *TermCtx) Range(t *Term, lo, hi int64) *Term {
	if t.isConst() || t.smin >= lo && t.smax <= hi {
		return t
	}
	lo, hi = max(lo, t.smin), min(hi, t.smax)
	if lo > hi {
		return t // an infeasible path
	}
	if lo == hi {
		return c.BV(uint64(lo), t.w)
	}
	t = strip(t)
	return c.mk(tkey{op: ORange, kind: KBV, w: t.w}, t, c.BV(uint64(lo), t.w), c.BV(uint64(hi), t.w))
}

func strip(t *Term) *Term {
	for t.op == ORange {
		t = t.a
	}
	return t
}

func (c *TermCtx) SToF(a *Term, w uint8) *Term {
	if a.isConst() {
		if w == 32 {
			return c.FP32(float32(sx(a.val, a.w)))
		}
		return c.FP64(float64(sx(a.val, a.w)))
	}
	if a.op == OSExt {
		a = a.a
	} else if a.op == OZExt && a.w > a.a.w {
		return c.un(OUToF, KFP, w, a.a)
	}
	return c.un(OSToF, KFP, w, a)
}
func (c *TermCtx) UToF(a *Term, w uint8) *Term {
	if a.isConst() {
		if w == 32 {
			return c.FP32(float32(a.val))
		}
		return c.FP64(float64(a.val))
	}
	if a.op == OZExt {
		a = a.a
	}
	return c.un(OUToF, KFP, w, a)
}
func (c *TermCtx) FToS(a *Term, w uint8) *Term {
	if a.isConst() {
		return c.BV(uint64(f2s(fval(a), w)), w)
	}
	if x := c.exactInt(a); x != nil {
		return c.Trunc(x, w)
	}
	if w < 64 {
		return c.Trunc(c.FToS(a, 64), w)
	}
	if n, k, _, ok := c.decForm(a); ok && n.smin > -1<<43 && n.smax < 1<<43 {
		return c.Arith(OSDiv, n, c.BV(uint64(pow10i[k]), 64))
	}
	return c.un(OFToS, KBV, w, a)
}
func f2s(f float64, w uint8) int64 {
	if math.IsNaN(f) || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(f)
}
func (c *TermCtx) FToU(a *Term, w uint8) *Term {
	if a.isConst() {
		return c.BV(uint64(fval(a)), w)
	}
	if x := c.exactInt(a); x != nil {
		return c.Trunc(x, w)
	}
	// via signed conversion (exact for values below 2^63)
	return c.Trunc(c.FToS(a, 64), w)
}
func (c *TermCtx) FBits(a *Term) *Term {
	if a.isConst() {
		return c.mk(tkey{op: OConst, kind: KFP, w: a.w, val: a.val}, nil, nil, nil)
	}
	return c.un(OFBits, KFP, a.w, a)
}
func (c *TermCtx) FtoF(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.FPc(fval(a), w)
	}
	return c.un(OFtoF, KFP, w, a)
}

// ---- evaluation ----

type Model map[string]uint64

func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	c.egen++
	return c.ev(t, m)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) ev(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.egen == c.egen {
		return t.ev
	}
	var r uint64
	f := func(x *Term) float64 {
		v := c.ev(x, m)
		if x.w == 32 {
			return float64(math.Float32frombits(uint32(v)))
		}
		return math.Float64frombits(v)
	}
	pf := func(x float64, w uint8) uint64 {
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(x)
	}
	switch t.op {
	case ORange:
		r = c.ev(t.a, m)
	case OVar:
		if v, ok := m[t.name]; ok {
			r = v
		} else {
			r = t.val
		}
	case ONot:
		r = 1 - c.ev(t.a, m)
	case OAnd:
		r = c.ev(t.a, m) & c.ev(t.b, m)
	case OOr:
		r = c.ev(t.a, m) | c.ev(t.b, m)
	case OIte:
		if c.ev(t.a, m) == 1 {
			r = c.ev(t.b, m)
		} else {
			r = c.ev(t.c, m)
		}
	case OEq:
		r = b2u(c.ev(t.a, m) == c.ev(t.b, m))
	case OUlt:
		r = b2u(c.ev(t.a, m) < c.ev(t.b, m))
	case OUle:
		r = b2u(c.ev(t.a, m) <= c.ev(t.b, m))
	case OSlt:
		r = b2u(sx(c.ev(t.a, m), t.a.w) < sx(c.ev(t.b, m), t.a.w))
	case OSle:
		r = b2u(sx(c.ev(t.a, m), t.a.w) <= sx(c.ev(t.b, m), t.a.w))
	case OZExt:
		r = c.ev(t.a, m)
	case OSExt:
		r = uint64(sx(c.ev(t.a, m), t.a.w)) & maskw(t.w)
	case OTrunc:
		r = c.ev(t.a, m) & maskw(t.w)
	case OFAdd, OFSub, OFMul, OFDiv:
		r = pf(evalF(t.op, f(t.a), f(t.b), t.w), t.w)
	case OFNeg:
		r = pf(-f(t.a), t.w)
	case OFEq:
		r = b2u(f(t.a) == f(t.b))
	case OFLt:
		r = b2u(f(t.a) < f(t.b))
	case OFLe:
		r = b2u(f(t.a) <= f(t.b))
	case OSToF:
		v := sx(c.ev(t.a, m), t.a.w)
		if t.w == 32 {
			r = uint64(math.Float32bits(float32(v)))
		} else {
			r = math.Float64bits(float64(v))
		}
	case OUToF:
		v := c.ev(t.a, m)
		if t.w == 32 {
			r = uint64(math.Float32bits(float32(v)))
		} else {
			r = math.Float64bits(float64(v))
		}
	case OFToS:
		r = uint64(f2s(f(t.a), t.w)) & maskw(t.w)
	case OFBits:
		r = c.ev(t.a, m)
	case OFtoF:
		r = pf(f(t.a), t.w)
	default:
		r = evalBV(t.op, c.ev(t.a, m), c.ev(t.b, m), t.w)
	}
	t.ev, t.egen = r, c.egen
	return r
}

// String renders a term for debugging.
func (c *TermCtx) String(t *Term) string {
	switch t.op {
	case OConst:
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case OVar:
		return t.name
	}
	s := fmt.Sprintf("(op%d", t.op)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + c.String(x)
		}
	}
	return s + ")"
}
