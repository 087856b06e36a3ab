package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func (f fmtFlags) spec(verb byte) string {
	var sb strings.Builder
	sb.WriteByte('%')
	if f.plus {
		sb.WriteByte('+')
	}
	if f.minus {
		sb.WriteByte('-')
	}
	if f.sharp {
		sb.WriteByte('#')
	}
	if f.space {
		sb.WriteByte(' ')
	}
	if f.zero {
		sb.WriteByte('0')
	}
	if f.hasWid {
		sb.WriteString(strconv.Itoa(f.wid))
	}
	if f.hasPrec {
		sb.WriteByte('.')
		sb.WriteString(strconv.Itoa(f.prec))
	}
	sb.WriteByte(verb)
	return sb.String()
}

func typeStr(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	if b, ok := t.(*types.Basic); ok {
		return b.Name()
	}
	if i, ok := t.Underlying().(*types.Interface); ok && i.Empty() {
		if _, named := t.(*types.Named); !named {
			return "interface {}"
		}
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return strings.NewReplacer("interface{}", "interface {}", "any", "interface {}").Replace(s)
}

// sprintf implements fmt.Sprintf over engine values.
func (in *Interp) sprintf(format Value, args []Value) Value {
	fs, ok := format.(string)
	if !ok {
		fs = in.concStr(format)
	}
	var out Value = ""
	lit := func(s string) { out = strConcat(out, s) }
	ai := 0
	n := len(fs)
	i := 0
	var reordered, good, afterIndex bool
	// argNumber reads an explicit argument index, as in %[1]s
	argNumber := func() {
		if i >= n || fs[i] != '[' {
			return
		}
		reordered = true
		end := strings.IndexByte(fs[i:], ']')
		if end < 0 {
			good = false
			i++
			return
		}
		x, err := strconv.Atoi(fs[i+1 : i+end])
		i += end + 1
		if err != nil || x < 1 || x > len(args) {
			good = false
			return
		}
		ai = x - 1
		afterIndex = true
	}
	// star reads a width or precision from the arguments
	star := func() (int, bool) {
		if ai >= len(args) {
			return 0, false
		}
		a := args[ai].(Iface)
		ai++
		if a.t == nil {
			return 0, false
		}
		w, signed, ok := intInfo(a.t)
		if !ok {
			return 0, false
		}
		v, ok := a.v.(uint64)
		if !ok {
			v = uint64(in.concTerm(a.v.(*Term)))
		}
		k := int64(v)
		if signed {
			k = sx(v, w)
		}
		if k > 1e6 || k < -1e6 {
			return 0, false
		}
		return int(k), true
	}
	for i < n {
		good, afterIndex = true, false
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			lit(fs[i:])
			break
		}
		lit(fs[i : i+j])
		i += j + 1
		var f fmtFlags
	flags:
		for i < n {
			switch fs[i] {
			case '+':
				f.plus = true
			case '-':
				f.minus = true
			case '#':
				f.sharp = true
			case ' ':
				f.space = true
			case '0':
				f.zero = true
			default:
				break flags
			}
			i++
		}
		argNumber()
		if i < n && fs[i] == '*' {
			i++
			if w, ok := star(); ok {
				f.hasWid, f.wid = true, w
				if w < 0 {
					f.wid, f.minus, f.zero = -w, true, false
				}
			} else {
				lit("%!(BADWIDTH)")
			}
			afterIndex = false
		} else {
			for i < n && fs[i] >= '0' && fs[i] <= '9' {
				f.hasWid = true
				f.wid = f.wid*10 + int(fs[i]-'0')
				i++
			}
			if afterIndex && f.hasWid {
				good = false
			}
		}
		if i+1 <= n && fs[i] == '.' {
			i++
			if afterIndex {
				good = false
			}
			argNumber()
			if i < n && fs[i] == '*' {
				i++
				w, ok := star()
				if ok && w >= 0 {
					f.hasPrec, f.prec = true, w
				}
				if !ok {
					lit("%!(BADPREC)")
				}
				afterIndex = false
			} else {
				f.hasPrec = true
				for i < n && fs[i] >= '0' && fs[i] <= '9' {
					f.prec = f.prec*10 + int(fs[i]-'0')
					i++
				}
			}
		}
		if !afterIndex {
			argNumber()
		}
		if i >= n {
			lit("%!(NOVERB)")
			break
		}
		verb := fs[i]
		if verb >= 0x80 {
			panic(unsupported("format verb"))
		}
		i++
		if verb == '%' {
			lit("%")
			continue
		}
		if !good {
			lit("%!" + string(rune(verb)) + "(BADINDEX)")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(rune(verb)) + "(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'T' {
			lit(typeStr(a.t))
			continue
		}
		if verb == 'p' {
			lit("0xc000000000")
			continue
		}
		out = strConcat(out, in.fmtValue(a, verb, f))
	}
	if !reordered && ai < len(args) {
		lit("%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			if k > ai {
				lit(", ")
			}
			a := args[k].(Iface)
			if a.t == nil {
				lit("<nil>")
				continue
			}
			lit(typeStr(a.t) + "=")
			out = strConcat(out, in.fmtValue(a, 'v', fmtFlags{}))
		}
		lit(")")
	}
	return out
}

func (in *Interp) fmtValue(a Iface, verb byte, f fmtFlags) Value {
	if verb == 'w' {
		verb = 'v'
	}
	if a.t == nil {
		if verb == 'v' {
			return padS("<nil>", f)
		}
		return "%!" + string(rune(verb)) + "(<nil>)"
	}
	if !(verb == 'v' && f.sharp) && strings.IndexByte("vsxXq", verb) >= 0 {
		for _, m := range []string{"Error", "String"} {
			fn := in.stringMethod(a.t, m)
			if fn == nil {
				continue
			}
			if p, ok := a.v.(Ptr); ok && p == nil {
				return "<nil>"
			}
			s := in.callFn(fn, []Value{a.v}, nil)
			return in.fmtStr(s, verb, f)
		}
	}
	return in.fmtPlain(a.v, a.t, verb, f, 0)
}

func (in *Interp) stringMethod(t types.Type, name string) *Func {
	k := mthKey{t, "\x00" + name, nil}
	if fn, ok := in.mthC[k]; ok {
		return fn
	}
	var fn *Func
	if sel := in.p.prog.MethodSets.MethodSet(t).Lookup(nil, name); sel != nil {
		sig := sel.Type().(*types.Signature)
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
			fn = in.findMethod(t, name, nil)
		}
	}
	in.mthC[k] = fn
	return fn
}

func padS(s string, f fmtFlags) Value {
	if f.hasWid {
		return fmt.Sprintf(fmtFlags{minus: f.minus, hasWid: true, wid: f.wid}.spec('s'), s)
	}
	return s
}

func (in *Interp) fmtStr(s Value, verb byte, f fmtFlags) Value {
	if c, ok := s.(string); ok {
		return fmt.Sprintf(f.spec(verb), c)
	}
	switch verb {
	case 'v', 's':
		if verb == 'v' && f.sharp {
			return in.quote(s)
		}
		if f.hasWid || f.hasPrec {
			b := strBytes(s)
			if f.hasPrec && f.prec < len(b) && allASCII(b) {
				s = mkStr(b[:f.prec])
			}
			for f.hasWid && strLen(s) < f.wid {
				if f.minus {
					s = strConcat(s, " ")
				} else {
					s = strConcat(" ", s)
				}
			}
		}
		return s
	case 'q':
		return in.quote(s)
	}
	return fmt.Sprintf(f.spec(verb), in.concStr(s))
}

func (in *Interp) quote(s Value) Value {
	if c, ok := s.(string); ok {
		return strconv.Quote(c)
	}
	return in.callFn(in.p.fnNamed("strconv", "Quote"), []Value{s}, nil)
}

func (in *Interp) fmtPlain(v Value, t types.Type, verb byte, f fmtFlags, depth int) Value {
	u := t.Underlying()
	if b, ok := u.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return in.fmtStr(v, verb, f)
		case b.Info()&types.IsBoolean != 0:
			if tm, ok := v.(*Term); ok {
				v = in.decide(tm)
			}
			return fmt.Sprintf(f.spec(verb), v.(bool))
		case b.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(t)
			if tm, ok := v.(*Term); ok {
				if (verb == 'd' || verb == 'v') && !f.hasWid && !f.plus && !f.sharp {
					return in.fmtInt(tm, signed)
				}
				v = in.concTerm(tm)
			}
			if signed {
				return fmt.Sprintf(f.spec(verb), sx(v.(uint64), w))
			}
			return fmt.Sprintf(f.spec(verb), v.(uint64))
		case b.Info()&types.IsFloat != 0:
			if tm, ok := v.(*Term); ok {
				if verb == 'v' || verb == 'g' || verb == 'f' && f.hasPrec && f.prec == 0 {
					if s, ok := in.fmtFloat(tm); ok {
						return s
					}
				}
				v = in.concFloat(tm)
			}
			return fmt.Sprintf(f.spec(verb), v)
		}
		return fmt.Sprintf("%v", v)
	}
	sub := func(e Value, et types.Type) Value {
		if _, ok := et.Underlying().(*types.Interface); ok {
			iv := e.(Iface)
			if iv.t == nil {
				return "<nil>"
			}
			return in.fmtValue(iv, verb, f)
		}
		return in.fmtValue(Iface{t: canon(et), v: e}, verb, f)
	}
	switch x := u.(type) {
	case *types.Slice, *types.Array:
		var es []Value
		var et types.Type
		switch s := v.(type) {
		case SliceV:
			es = s
			et = x.(*types.Slice).Elem()
		case Array:
			es = s
			et = x.(*types.Array).Elem()
		}
		if w, _, ok := intInfo(et); ok && w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
			return in.fmtStr(mkStr(es), verb, f)
		}
		var out Value = "["
		for i, e := range es {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, sub(e, et))
		}
		return strConcat(out, "]")
	case *types.Map:
		m := v.(*MapV)
		ents := m.live()
		sort.SliceStable(ents, func(i, j int) bool {
			a, ok1 := ents[i].k.(string)
			b, ok2 := ents[j].k.(string)
			return ok1 && ok2 && a < b
		})
		var out Value = "map["
		for i, e := range ents {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, sub(e.k, x.Key()))
			out = strConcat(out, ":")
			out = strConcat(out, sub(e.v, x.Elem()))
		}
		return strConcat(out, "]")
	case *types.Struct:
		var out Value = "{"
		for i, e := range v.(Struct) {
			if i > 0 {
				out = strConcat(out, " ")
			}
			if f.plus {
				out = strConcat(out, x.Field(i).Name()+":")
			}
			ft := x.Field(i).Type()
			if x.Field(i).Exported() {
				out = strConcat(out, sub(e, ft))
			} else if _, ok := ft.Underlying().(*types.Interface); ok {
				iv := e.(Iface)
				if iv.t == nil {
					out = strConcat(out, "<nil>")
				} else {
					out = strConcat(out, in.fmtPlain(iv.v, iv.t, verb, f, depth+1))
				}
			} else {
				out = strConcat(out, in.fmtPlain(e, ft, verb, f, depth+1))
			}
		}
		return strConcat(out, "}")
	case *types.Pointer:
		p, ok := v.(Ptr)
		if ok && p == nil {
			return "<nil>"
		}
		if ok && depth == 0 {
			switch x.Elem().Underlying().(type) {
			case *types.Struct, *types.Map, *types.Slice, *types.Array:
				return strConcat("&", in.fmtPlain(*p, x.Elem(), verb, f, depth+1))
			}
		}
		return "0xc000000000"
	case *types.Interface:
		iv := v.(Iface)
		if iv.t == nil {
			return "<nil>"
		}
		return in.fmtValue(iv, verb, f)
	}
	return "?"
}

func (in *Interp) sprint(args []Value, ln bool) Value {
	var out Value = ""
	prevStr := true
	for i, x := range args {
		a := x.(Iface)
		isS := a.t != nil && isString(a.t)
		if i > 0 && (ln || (!isS && !prevStr)) {
			out = strConcat(out, " ")
		}
		out = strConcat(out, in.fmtValue(a, 'v', fmtFlags{}))
		prevStr = isS
	}
	if ln {
		out = strConcat(out, "\n")
	}
	return out
}

func toBytes(s Value) SliceV {
	b := strBytes(s)
	n := make(SliceV, len(b))
	copy(n, b)
	return n
}

func (in *Interp) writeTo(w Value, s Value) Value {
	iw := w.(Iface)
	r := in.callMethod(iw, "Write", toBytes(s))
	return r
}

func initFmt(reg regFn) {
	va := func(a []Value, i int) []Value {
		s, _ := a[i].(SliceV)
		return s
	}
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.sprintf(a[0], va(a, 1)) }, "fmt.Sprintf")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.sprint(va(a, 0), false) }, "fmt.Sprint")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.sprint(va(a, 0), true) }, "fmt.Sprintln")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.writeTo(a[0], in.sprintf(a[1], va(a, 2))) }, "fmt.Fprintf")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.writeTo(a[0], in.sprint(va(a, 1), false)) }, "fmt.Fprint")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.writeTo(a[0], in.sprint(va(a, 1), true)) }, "fmt.Fprintln")
	reg(func(in *Interp, fr *frame, a []Value) Value { return Tuple{uint64(0), Iface{}} }, "fmt.Printf", "fmt.Println", "fmt.Print")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		fs, ok := a[0].(string)
		if !ok {
			fs = in.concStr(a[0])
		}
		args := va(a, 1)
		msg := in.sprintf(fs, args)
		// operands of %w
		var wrapped []Iface
		ai := 0
		for i := 0; i < len(fs); i++ {
			if fs[i] != '%' {
				continue
			}
			i++
			for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
				i++
			}
			if i >= len(fs) {
				break
			}
			if fs[i] == '%' {
				continue
			}
			if fs[i] == 'w' && ai < len(args) {
				e := args[ai].(Iface)
				if e.t != nil && in.stringMethod(e.t, "Error") != nil {
					wrapped = append(wrapped, e)
				}
			}
			ai++
		}
		switch len(wrapped) {
		case 0:
			return in.errNew(msg)
		case 1:
			return in.mkErr("fmt", "wrapError", map[string]Value{"msg": msg, "err": wrapped[0]})
		}
		s := make(SliceV, len(wrapped))
		for i := range wrapped {
			s[i] = wrapped[i]
		}
		return in.mkErr("fmt", "wrapErrors", map[string]Value{"msg": msg, "errs": s})
	}, "fmt.Errorf")
	// errors
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.errorsIs(a[0].(Iface), a[1].(Iface)) }, "errors.Is", "internal/errors.Is")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		err := a[0].(Iface)
		tgt := a[1].(Iface)
		if tgt.t == nil {
			in.rtPanicPlain("errors: target cannot be nil")
		}
		pt := tgt.t.Underlying().(*types.Pointer).Elem()
		return in.errorsAs(err, tgt.v.(Ptr), canon(pt))
	}, "errors.As")
	_ = math.Abs
}

func (in *Interp) unwrap(err Iface) []Iface {
	f := in.findMethod(err.t, "Unwrap", nil)
	if f == nil {
		return nil
	}
	sig := f.fn.Signature
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return nil
	}
	r := in.callFn(f, []Value{err.v}, nil)
	switch x := r.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		return []Iface{x}
	case SliceV:
		var out []Iface
		for _, e := range x {
			out = append(out, e.(Iface))
		}
		return out
	}
	return nil
}

func (in *Interp) errorsIs(err, target Iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && err.t == target.t && in.truth(in.eqVal(err, target, nil)) {
		return true
	}
	if f := in.findMethod(err.t, "Is", nil); f != nil && f.fn.Signature.Params().Len() == 1 {
		if in.truth(in.callFn(f, []Value{err.v, target}, nil)) {
			return true
		}
	}
	for _, e := range in.unwrap(err) {
		if e.t != nil && in.errorsIs(e, target) {
			return true
		}
	}
	return false
}

func (in *Interp) errorsAs(err Iface, p Ptr, t types.Type) bool {
	if err.t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		if in.implements(err.t, t) {
			in.setCell(p, err)
			return true
		}
	} else if err.t == t {
		in.store(p, err.v)
		return true
	}
	for _, e := range in.unwrap(err) {
		if in.errorsAs(e, p, t) {
			return true
		}
	}
	return false
}
