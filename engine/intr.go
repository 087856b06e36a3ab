package main

import (
	"fmt"
	"go/types"
	"html"
	"math"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type provRec struct {
	val   Value // integer term (64 bits, signed) of which the bytes are the decimal digits
	bytes []Value
}

var pureMemoFuncs = map[string]bool{
	"github.com/GannettDigital/PaesslerAG_jsonpath.New": true,
	"github.com/antchfx/xpath.Compile":                  true,
	"regexp/syntax.Parse":                               true,
	"github.com/microcosm-cc/bluemonday.StrictPolicy":   true,
}

// memoCall evaluates a pure function of concrete strings once, outside of the path.
func (in *Interp) memoCall(f *Func, args []Value) (Value, bool) {
	key := f.name
	for _, a := range args {
		s, ok := a.(string)
		if !ok {
			return nil, false
		}
		key += "\x00" + s
	}
	if v, ok := in.memo[key]; ok {
		return v, true
	}
	if in.path == nil {
		return nil, false
	}
	v := in.outside(func() Value {
		in.memoBusy = true
		defer func() { in.memoBusy = false }()
		return in.callPlain(f, args)
	})
	in.memo[key] = v
	return v, true
}

// callPlain runs the SSA body without memoisation.
func (in *Interp) callPlain(f *Func, args []Value) Value {
	in.p.mu.Lock()
	g, ok := in.p.funcs2[f.fn]
	if !ok {
		g = &Func{p: in.p, fn: f.fn, name: f.name, nparams: f.nparams, nfree: f.nfree, inRepo: f.inRepo}
		in.p.funcs2[f.fn] = g
	}
	in.p.mu.Unlock()
	return in.callFn(g, args, nil)
}

// outside evaluates f with its effects persisting over paths (no trail, no decisions).
func (in *Interp) outside(f func() Value) Value {
	saveTrail, savePath, saveSteps, saveEpoch, saveRacing := in.trailOn, in.path, in.steps, in.epoch, in.racing
	in.racing = false
	in.trailOn, in.path = false, nil
	in.epoch = 0
	defer func() {
		in.trailOn, in.path, in.steps, in.epoch, in.racing = saveTrail, savePath, saveSteps, saveEpoch, saveRacing
	}()
	return f()
}

var intrinsics map[string]intrinsic
var nativeMethods map[string]intrinsic

func lookupIntrinsic(name string, f *ssa.Function) intrinsic {
	if h, ok := intrinsics[name]; ok {
		return h
	}
	if name == "reflect.TypeFor" && len(f.TypeArgs()) == 1 {
		t := f.TypeArgs()[0]
		return func(in *Interp, _ *frame, a []Value) Value { return in.rtIface(t) }
	}
	return nil
}

// ---- generic concrete fast path ----

func allConc(args []Value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case string, uint64, bool, float64, float32:
		case SliceV:
			for _, e := range x {
				switch e.(type) {
				case string, uint64:
				default:
					return false
				}
			}
		default:
			_ = x
			return false
		}
	}
	return true
}

func toGo(v Value, t reflect.Type) reflect.Value {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		r.SetString(v.(string))
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		r.SetInt(sx(v.(uint64), uint8(t.Bits())))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		r.SetUint(v.(uint64))
	case reflect.Bool:
		r.SetBool(v.(bool))
	case reflect.Float64:
		r.SetFloat(v.(float64))
	case reflect.Float32:
		r.SetFloat(float64(v.(float32)))
	case reflect.Slice:
		s := v.(SliceV)
		if s == nil {
			return r
		}
		r.Set(reflect.MakeSlice(t, len(s), len(s)))
		for i, e := range s {
			r.Index(i).Set(toGo(e, t.Elem()))
		}
	default:
		panic(unsupported("toGo " + t.String()))
	}
	return r
}

func fromGo(r reflect.Value) Value {
	switch r.Kind() {
	case reflect.String:
		return r.String()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return uint64(r.Int()) & maskw(uint8(r.Type().Bits()))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return r.Uint()
	case reflect.Bool:
		return r.Bool()
	case reflect.Float64:
		return r.Float()
	case reflect.Slice:
		if r.IsNil() {
			return SliceV(nil)
		}
		s := make(SliceV, r.Len())
		for i := range s {
			s[i] = fromGo(r.Index(i))
		}
		return s
	}
	panic(unsupported("fromGo " + r.Type().String()))
}

var natives = map[string]any{
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Title": strings.Title,
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte, "strings.Contains": strings.Contains,
	"strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune, "strings.Count": strings.Count,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter, "strings.Fields": strings.Fields,
	"strings.Join": strings.Join, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Repeat": strings.Repeat,
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.EqualFold": strings.EqualFold, "strings.Compare": strings.Compare,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint, "strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatBool": strconv.FormatBool,
	"strconv.Quote": strconv.Quote, "strconv.QuoteToASCII": strconv.QuoteToASCII,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsSpace": unicode.IsSpace, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.ToTitle": unicode.ToTitle, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct, "unicode.IsPrint": unicode.IsPrint,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidRune": utf8.ValidRune,
	"path.Base": path.Base, "path.Dir": path.Dir, "path.Clean": path.Clean, "path.Ext": path.Ext, "path.Join": path.Join,
	"path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Clean": filepath.Clean, "path/filepath.Ext": filepath.Ext,
	"path/filepath.Join": filepath.Join, "path/filepath.IsAbs": filepath.IsAbs, "path/filepath.ToSlash": filepath.ToSlash,
	"html.EscapeString": html.EscapeString, "html.UnescapeString": html.UnescapeString,
	"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Abs": math.Abs, "math.Mod": math.Mod, "math.Pow": math.Pow, "math.Sqrt": math.Sqrt, "math.Log10": math.Log10, "math.Round": math.Round,
	"regexp.QuoteMeta": regexp.QuoteMeta,
	"bytes.ToLower":    nil,
}

// reflTable caches the Func wrappers.
func nativeIntr(name string, fn any) intrinsic {
	fv := reflect.ValueOf(fn)
	ft := fv.Type()
	return func(in *Interp, fr *frame, args []Value) Value {
		if allConc(args) {
			av := make([]reflect.Value, len(args))
			for i, a := range args {
				av[i] = toGo(a, ft.In(i))
			}
			var rs []reflect.Value
			if ft.IsVariadic() {
				rs = fv.CallSlice(av)
			} else {
				rs = fv.Call(av)
			}
			if len(rs) == 1 {
				return fromGo(rs[0])
			}
			t := make(Tuple, len(rs))
			for i := range rs {
				t[i] = fromGo(rs[i])
			}
			return t
		}
		if h := symIntr[name]; h != nil {
			if v, ok := h(in, args); ok {
				return v
			}
		}
		return in.callBody(name, args)
	}
}

// callBody runs the SSA body of a function which has an intrinsic.
func (in *Interp) callBody(name string, args []Value) Value {
	in.p.mu.Lock()
	f := in.p.byName[name]
	in.p.mu.Unlock()
	if f == nil {
		panic(unsupported("body of " + name))
	}
	return in.callSSA(f, args)
}

// symIntr are models of library functions for symbolic arguments; ok=false falls back to the real body.
var symIntr map[string]func(in *Interp, args []Value) (Value, bool)

// asciiRange reports whether all the bytes are known to be ASCII.
func allASCII(b []Value) bool {
	for _, x := range b {
		switch y := x.(type) {
		case uint64:
			if y >= 0x80 {
				return false
			}
		case *Term:
			if y.umax >= 0x80 {
				return false
			}
		}
	}
	return true
}

func (in *Interp) inRange(x Value, lo, hi uint64) *Term {
	t := in.toTerm(x, 8)
	return in.tc.And(in.tc.Ule(in.tc.BV(lo, 8), t), in.tc.Ule(t, in.tc.BV(hi, 8)))
}

func (in *Interp) mapCase(v Value, lo, hi uint64, delta uint64) (Value, bool) {
	b := strBytes(v)
	if !allASCII(b) {
		return nil, false
	}
	out := make([]Value, len(b))
	for i, x := range b {
		t := in.toTerm(x, 8)
		out[i] = simp(in.tc.Ite(in.inRange(x, lo, hi), in.tc.Arith(OAdd, t, in.tc.BV(delta&0xff, 8)), t))
	}
	return mkStr(out), true
}

func (in *Interp) byteEq(x Value, c Value) *Term {
	return in.tc.Eq(in.toTerm(x, 8), in.toTerm(c, 8))
}

func (in *Interp) matchAt(s, sub []Value, i int) Value {
	res := in.tc.tTrue
	for k := range sub {
		res = in.tc.And(res, in.byteEq(s[i+k], sub[k]))
		if res.isFalse() {
			return false
		}
	}
	return simp(res)
}

// index forks on the first position of sub in s.
func (in *Interp) strIndex(s, sub []Value) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if in.truth(in.matchAt(s, sub, i)) {
			return i
		}
	}
	return -1
}

func (in *Interp) contains(s, sub []Value) Value {
	res := in.tc.tFalse
	for i := 0; i+len(sub) <= len(s); i++ {
		m := in.matchAt(s, sub, i)
		res = in.tc.Or(res, in.toTerm(m, 1))
		if res.isTrue() {
			return true
		}
	}
	return simp(res)
}

func (in *Interp) errNew(msg Value) Iface {
	f := in.p.fnNamed("errors", "New")
	return in.callFn(f, []Value{msg}, nil).(Iface)
}

func (p *Program) fnNamed(pkg, name string) *Func {
	pk := p.pkgs[pkg]
	if pk == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	f := pk.Func(name)
	if f == nil {
		panic(unsupported("function " + pkg + "." + name))
	}
	return p.fnOf(f)
}

func (p *Program) typ(pkg, name string) types.Type {
	pk := p.pkgs[pkg]
	if pk == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	t := pk.Type(name)
	if t == nil {
		panic(unsupported("type " + pkg + "." + name))
	}
	return canon(t.Type())
}

// mkErr builds an error of pointer-to-struct type pkg.name.
func (in *Interp) mkErr(pkg, name string, set map[string]Value) Iface {
	t := in.p.typ(pkg, name)
	st := t.Underlying().(*types.Struct)
	s := zero(t).(Struct)
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := set[st.Field(i).Name()]; ok {
			s[i] = v
		}
	}
	var v Value = s
	return Iface{t: canon(types.NewPointer(t)), v: Ptr(&v)}
}

// fmtInt renders a symbolic 64-bit signed integer in decimal, forking on sign and number of digits.
func (in *Interp) fmtInt(t *Term, signed bool) Value {
	tc := in.tc
	if t.w < 64 {
		if signed {
			t = tc.SExt(t, 64)
		} else {
			t = tc.ZExt(t, 64)
		}
	}
	var out []Value
	min := t.smin == math.MinInt64
	if signed && in.decide(tc.Slt(t, tc.BV(0, 64))) {
		out = append(out, uint64('-'))
		t = tc.Neg(t)
	}
	orig := t
	if signed && !min {
		t = tc.Range(t, 0, math.MaxInt64)
	}
	if t.isConst() {
		return strConcat(mkStr(out), strconv.FormatUint(t.val, 10))
	}
	n := 1
	pow := uint64(10)
	for n < 20 {
		if in.decide(tc.Ult(t, tc.BV(pow, 64))) {
			break
		}
		n++
		if n < 20 {
			pow *= 10
		}
	}
	if n < 19 && n > 1 {
		t = tc.Range(t, int64(pow/10), int64(pow-1))
	} else if n == 1 {
		t = tc.Range(t, 0, 9)
	}
	if t.isConst() {
		return strConcat(mkStr(out), strconv.FormatUint(t.val, 10))
	}
	// use a narrower width when the digits allow it
	var w uint8 = 64
	switch {
	case n <= 2:
		w = 8
	case n <= 4:
		w = 16
	case n <= 9:
		w = 32
	}
	x := t
	if w < 64 {
		x = tc.Trunc(t, w)
	}
	digs := make([]Value, n)
	p := uint64(1)
	for i := n - 1; i >= 0; i-- {
		d := x
		if p > 1 {
			d = tc.Arith(OUDiv, d, tc.BV(p, w))
		}
		if i > 0 {
			d = tc.Arith(OURem, d, tc.BV(10, w))
		}
		if w > 8 {
			d = tc.Trunc(d, 8)
		}
		digs[i] = simp(tc.Arith(OAdd, d, tc.BV('0', 8)))
		p *= 10
	}
	for _, d := range digs {
		if k, ok := d.(*Term); ok {
			in.prov[k] = append(in.prov[k], provRec{val: orig, bytes: digs})
			break
		}
	}
	return mkStr(append(out, digs...))
}

// provInt recognises bytes produced by fmtInt.
func (in *Interp) provInt(b []Value) (*Term, bool) {
	neg := false
	if len(b) > 0 && b[0] == Value(uint64('-')) {
		neg = true
		b = b[1:]
	}
	for _, x := range b {
		if k, ok := x.(*Term); ok {
			for _, r := range in.prov[k] {
				if len(r.bytes) != len(b) {
					continue
				}
				same := true
				for i := range b {
					if b[i] != r.bytes[i] {
						same = false
						break
					}
				}
				if same {
					t := r.val.(*Term)
					if neg {
						t = in.tc.Neg(t)
					}
					return t, true
				}
			}
			return nil, false
		}
	}
	return nil, false
}

// provLen is the length of the leading bytes of b which were written by one fmtInt.
func (in *Interp) provLen(b []Value) int {
	for _, x := range b {
		switch k := x.(type) {
		case uint64:
			if k < '0' || k > '9' {
				return 0
			}
		case *Term:
			for _, r := range in.prov[k] {
				if len(r.bytes) > len(b) {
					continue
				}
				same := true
				for i := range r.bytes {
					if b[i] != r.bytes[i] {
						same = false
						break
					}
				}
				if same {
					return len(r.bytes)
				}
			}
			return 0
		}
	}
	return 0
}

type provFRec struct {
	val   *Term
	bytes []Value
}

// provFloat recognises bytes produced by fmtFloat.
func (in *Interp) provFloat(b []Value) (*Term, bool) {
	for _, r := range in.provF {
		if len(r.bytes) != len(b) {
			continue
		}
		same := true
		for i := range b {
			if b[i] != r.bytes[i] {
				same = false
				break
			}
		}
		if same {
			return r.val, true
		}
	}
	return nil, false
}

// fmtFloat renders a symbolic float which is a small integer or a decimal fraction of at most four digits.
func (in *Interp) fmtFloat(v *Term) (Value, bool) {
	if i := in.tc.exactInt(v); i != nil {
		j := in.tc.SExt(i, 64)
		if j.smin > -1_000_000_000_000_000 && j.smax < 1_000_000_000_000_000 {
			return in.fmtInt(j, true), true
		}
	}
	if n, k, flip, ok := in.tc.decForm(v); ok && n.smin > -1<<43 && n.smax < 1<<43 {
		tc := in.tc
		var out []Value
		if flip && in.decide(tc.Eq(n, tc.BV(0, 64))) {
			return "-0", true
		}
		if in.decide(tc.Slt(n, tc.BV(0, 64))) {
			out = append(out, uint64('-'))
			n = tc.Neg(n)
		}
		n = tc.Range(n, 0, math.MaxInt64)
		m := tc.BV(uint64(pow10i[k]), 64)
		frac := tc.Arith(OURem, n, m)
		out = append(out, strBytes(in.fmtInt(tc.Arith(OUDiv, n, m), false))...)
		for k > 0 && in.decide(tc.Eq(tc.Arith(OURem, frac, tc.BV(10, 64)), tc.BV(0, 64))) {
			frac = tc.Arith(OUDiv, frac, tc.BV(10, 64))
			k--
		}
		if k > 0 {
			out = append(out, uint64('.'))
			for i := k - 1; i >= 0; i-- {
				d := tc.Arith(OUDiv, frac, tc.BV(uint64(pow10i[i]), 64))
				d = tc.Arith(OURem, d, tc.BV(10, 64))
				out = append(out, simp(tc.Arith(OAdd, tc.Trunc(d, 8), tc.BV('0', 8))))
			}
		}
		in.provF = append(in.provF, provFRec{val: v, bytes: out})
		return mkStr(out), true
	}
	return nil, false
}

func sl(v Value) []Value { return strBytes(v) }

func init() {
	symIntr = map[string]func(in *Interp, args []Value) (Value, bool){
		"strings.ToLower": func(in *Interp, a []Value) (Value, bool) { return in.mapCase(a[0], 'A', 'Z', 32) },
		"strings.ToUpper": func(in *Interp, a []Value) (Value, bool) { return in.mapCase(a[0], 'a', 'z', 0x100-32) },
		"strings.Contains": func(in *Interp, a []Value) (Value, bool) {
			return in.contains(sl(a[0]), sl(a[1])), true
		},
		"strings.Index": func(in *Interp, a []Value) (Value, bool) { return uint64(int64(in.strIndex(sl(a[0]), sl(a[1])))), true },
		"strings.IndexByte": func(in *Interp, a []Value) (Value, bool) {
			return uint64(int64(in.strIndex(sl(a[0]), []Value{a[1]}))), true
		},
		"strings.HasPrefix": func(in *Interp, a []Value) (Value, bool) {
			s, p := sl(a[0]), sl(a[1])
			if len(p) > len(s) {
				return false, true
			}
			return in.matchAt(s, p, 0), true
		},
		"strings.HasSuffix": func(in *Interp, a []Value) (Value, bool) {
			s, p := sl(a[0]), sl(a[1])
			if len(p) > len(s) {
				return false, true
			}
			return in.matchAt(s, p, len(s)-len(p)), true
		},
		"strings.Count": func(in *Interp, a []Value) (Value, bool) {
			s, p := sl(a[0]), sl(a[1])
			if len(p) == 0 {
				return nil, false
			}
			n := 0
			for i := 0; i+len(p) <= len(s); {
				if in.truth(in.matchAt(s, p, i)) {
					n++
					i += len(p)
				} else {
					i++
				}
			}
			return uint64(n), true
		},
		"strings.Join": func(in *Interp, a []Value) (Value, bool) {
			var r Value = ""
			for i, e := range a[0].(SliceV) {
				if i > 0 {
					r = strConcat(r, a[1])
				}
				r = strConcat(r, e)
			}
			return r, true
		},
		"unicode/utf8.ValidString": func(in *Interp, a []Value) (Value, bool) {
			if allASCII(sl(a[0])) {
				return true, true
			}
			return nil, false
		},
		"unicode/utf8.RuneCountInString": func(in *Interp, a []Value) (Value, bool) {
			if allASCII(sl(a[0])) {
				return uint64(strLen(a[0])), true
			}
			return nil, false
		},
		"strconv.Itoa": func(in *Interp, a []Value) (Value, bool) { return in.fmtInt(a[0].(*Term), true), true },
		"strconv.FormatInt": func(in *Interp, a []Value) (Value, bool) {
			if a[1] != Value(uint64(10)) {
				return nil, false
			}
			return in.fmtInt(a[0].(*Term), true), true
		},
		"strconv.FormatUint": func(in *Interp, a []Value) (Value, bool) {
			if a[1] != Value(uint64(10)) {
				return nil, false
			}
			return in.fmtInt(a[0].(*Term), false), true
		},
		"strconv.FormatBool": func(in *Interp, a []Value) (Value, bool) {
			if in.decide(a[0].(*Term)) {
				return "true", true
			}
			return "false", true
		},
		"strconv.FormatFloat": func(in *Interp, a []Value) (Value, bool) {
			f, ok := a[0].(*Term)
			if !ok {
				return nil, false
			}
			if a[1] == Value(uint64('f')) && sx(a[2].(uint64), 64) == -1 {
				if v, ok := in.fmtFloat(f); ok {
					return v, true
				}
			}
			panic(unsupported("formatting of a symbolic float"))
		},
		"strconv.Quote": func(in *Interp, a []Value) (Value, bool) {
			// symbolic printable ASCII: only " and \ are escaped
			b := sl(a[0])
			out := []Value{uint64('"')}
			for _, x := range b {
				t, ok := x.(*Term)
				if !ok {
					q := strconv.Quote(string([]byte{byte(x.(uint64))}))
					if x.(uint64) >= 0x80 {
						return nil, false
					}
					out = append(out, strBytes(q[1:len(q)-1])...)
					continue
				}
				if t.umin < 0x20 || t.umax >= 0x7f {
					if in.decide(in.tc.Not(in.inRange(t, 0x20, 0x7e))) {
						c := in.concTerm(t)
						if c >= 0x80 {
							return nil, false
						}
						q := strconv.Quote(string([]byte{byte(c)}))
						out = append(out, strBytes(q[1:len(q)-1])...)
						continue
					}
				}
				if in.decide(in.tc.Or(in.byteEq(t, uint64('"')), in.byteEq(t, uint64('\\')))) {
					out = append(out, uint64('\\'))
				}
				out = append(out, t)
			}
			return mkStr(append(out, uint64('"'))), true
		},
		"strings.Repeat": func(in *Interp, a []Value) (Value, bool) {
			n := in.concInt(a[1])
			if n < 0 || n > 1000 {
				return nil, false
			}
			var r Value = ""
			for i := int64(0); i < n; i++ {
				r = strConcat(r, a[0])
			}
			return r, true
		},
	}
	delete(natives, "bytes.ToLower")

	intrinsics = map[string]intrinsic{}
	for n, f := range natives {
		intrinsics[n] = nativeIntr(n, f)
	}
	reg := func(h intrinsic, names ...string) {
		for _, n := range names {
			intrinsics[n] = h
		}
	}
	nop := func(in *Interp, fr *frame, a []Value) Value { return nil }
	ret := func(v Value) intrinsic { return func(in *Interp, fr *frame, a []Value) Value { return v } }
	arg0 := func(in *Interp, fr *frame, a []Value) Value { return a[0] }

	// bytealg
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return uint64(int64(in.strIndex(bytesOf(a[0]), []Value{a[1]})))
	}, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte2")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return uint64(int64(in.strIndex(bytesOf(a[0]), bytesOf(a[1]))))
	}, "internal/bytealg.Index", "internal/bytealg.IndexString", "bytes.Index")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		b := bytesOf(a[0])
		n := uint64(0)
		for _, x := range b {
			if in.truth(simp(in.byteEq(x, a[1]))) {
				n++
			}
		}
		return n
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return in.strEq(mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1])))
	}, "internal/bytealg.Equal", "bytes.Equal")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x, y := mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1]))
		if in.truth(in.strEq(x, y)) {
			return uint64(0)
		}
		if in.truth(in.strLess(x, y)) {
			return maskw(64)
		}
		return uint64(1)
	}, "internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "runtime.cmpstring")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := in.concInt(a[0])
		s := make(SliceV, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	}, "internal/bytealg.MakeNoZero")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.contains(bytesOf(a[0]), bytesOf(a[1])) }, "bytes.Contains")

	// unsafe helpers
	reg(arg0, "internal/abi.NoEscape", "internal/abi.Escape", "strings.Clone", "internal/stringslite.Clone")
	reg(nop, "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "internal/race.ReleaseMerge",
		"runtime.Gosched", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault", "(*internal/godebug.Setting).IncNonDefault", "runtime/debug.PrintStack", "log.Printf", "log.Println", "log.Print",
		"sync.runtime_registerPoolCleanup", "internal/sync.runtime_Semrelease", "(*sync.noCopy).Lock", "(*sync.noCopy).Unlock", "sync.init", "os.runtime_beforeExit")
	reg(ret(""), "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).String", "runtime.Version", "os.Getenv", "syscall.Getenv2")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := new(Value)
		*p = zero(in.p.typ("internal/godebug", "Setting"))
		return Ptr(p)
	}, "internal/godebug.New")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return SliceV(bytesVal([]byte("goroutine 1 [running]:\n")))
	}, "runtime/debug.Stack")
	reg(ret(uint64(8)), "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.NumGoroutine")
	reg(func(in *Interp, fr *frame, a []Value) Value { panic(goexit{}) }, "runtime.Goexit")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return Tuple{uint64(0), "file.go", uint64(1), true}
	}, "runtime.Caller")
	reg(ret(uint64(0)), "runtime.Callers")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		panic(abortPath{"exit", "os.Exit called"})
	}, "os.Exit", "runtime.Goexit2", "log.Fatal", "log.Fatalf")

	// hashing
	reg(ret(uint64(1)), "hash/maphash.MakeSeed", "runtime.fastrand", "internal/runtime/sys.fastrand", "math/rand.Int63", "runtime.rand", "math/rand/v2.runtime_rand", "math/rand.runtime_rand")

	// math
	reg(func(in *Interp, fr *frame, a []Value) Value {
		switch f := a[0].(type) {
		case float64:
			return math.Float64bits(f)
		case *Term:
			if f.op == OFBits {
				return simp(f.a)
			}
			panic(unsupported("Float64bits of a symbolic float"))
		}
		return nil
	}, "math.Float64bits")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		switch f := a[0].(type) {
		case uint64:
			return math.Float64frombits(f)
		case *Term:
			return simp(in.tc.FBits(f))
		}
		return nil
	}, "math.Float64frombits")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		if f, ok := a[0].(float32); ok {
			return uint64(math.Float32bits(f))
		}
		panic(unsupported("Float32bits of a symbolic float"))
	}, "math.Float32bits")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		if f, ok := a[0].(uint64); ok {
			return math.Float32frombits(uint32(f))
		}
		return simp(in.tc.FBits(a[0].(*Term)))
	}, "math.Float32frombits")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x, ok := a[0].(float64)
		s := sx(a[1].(uint64), 64)
		if ok {
			return math.IsInf(x, int(s))
		}
		t := a[0].(*Term)
		pi := in.tc.FEq(t, in.tc.FP64(math.Inf(1)))
		ni := in.tc.FEq(t, in.tc.FP64(math.Inf(-1)))
		switch {
		case s > 0:
			return simp(pi)
		case s < 0:
			return simp(ni)
		}
		return simp(in.tc.Or(pi, ni))
	}, "math.IsInf")
	for _, n := range []string{"math.archFloor", "math.archCeil", "math.archTrunc", "math.archMax", "math.archMin"} {
		nn := n
		reg(func(in *Interp, fr *frame, a []Value) Value { panic(unsupported(nn)) }, n)
	}
	symIntr["math.Trunc"] = func(in *Interp, a []Value) (Value, bool) {
		t := a[0].(*Term)
		if in.tc.exactInt(t) != nil {
			return t, true
		}
		return nil, false
	}
	symIntr["math.Floor"] = symIntr["math.Trunc"]
	symIntr["math.Ceil"] = symIntr["math.Trunc"]
	symIntr["math.Abs"] = func(in *Interp, a []Value) (Value, bool) {
		t := a[0].(*Term)
		return simp(in.tc.Ite(in.tc.FLt(t, in.tc.FP64(0)), in.tc.FNeg(t), t)), true
	}

	// strconv: provenance of formatted integers
	reg(func(in *Interp, fr *frame, a []Value) Value {
		if s, ok := a[0].(*SymStr); ok {
			if t, ok := in.provInt(s.b); ok {
				return Tuple{simp(in.tc.SToF(t, 64)), Iface{}}
			}
			if t, ok := in.provFloat(s.b); ok {
				return Tuple{simp(t), Iface{}}
			}
		}
		return in.callBody("strconv.ParseFloat", a)
	}, "strconv.ParseFloat")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		if s, ok := a[0].(*SymStr); ok {
			if t, ok := in.provInt(s.b); ok {
				return Tuple{t, Iface{}}
			}
		}
		return in.callBody("strconv.Atoi", a)
	}, "strconv.Atoi")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		if s, ok := a[0].(*SymStr); ok && (a[1] == Value(uint64(10)) || a[1] == Value(uint64(0))) && (a[2] == Value(uint64(64)) || a[2] == Value(uint64(0))) {
			if t, ok := in.provInt(s.b); ok {
				return Tuple{t, Iface{}}
			}
		}
		return in.callBody("strconv.ParseInt", a)
	}, "strconv.ParseInt")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		b, _ := a[0].(SliceV)
		s := in.callFn(in.p.fnNamed("strconv", "FormatInt"), []Value{a[1], a[2]}, nil)
		return append(b[:len(b):len(b)], strBytes(s)...)
	}, "strconv.AppendInt")

	// reflect/lite, sort
	reg(func(in *Interp, fr *frame, a []Value) Value {
		iv := a[0].(Iface)
		s := iv.v.(SliceV)
		return &NativeFn{name: "swapper", f: func(in *Interp, av []Value) Value {
			i, j := in.concInt(av[0]), in.concInt(av[1])
			x, y := copyVal(s[i]), copyVal(s[j])
			in.setCell(&s[i], y)
			in.setCell(&s[j], x)
			return nil
		}}
	}, "internal/reflectlite.Swapper", "reflect.Swapper")
	initSync(reg)
	initFmt(reg)
	initReflect(reg)
	initJSON(reg)
	initVFS(reg)
	initSym(reg)
	initMisc(reg)
	initMore(reg)
}

// bytesOf accepts a string or a byte slice.
func bytesOf(v Value) []Value {
	switch x := v.(type) {
	case SliceV:
		return x
	case string, *SymStr:
		return strBytes(x)
	}
	panic(unsupported(fmt.Sprintf("bytesOf %T", v)))
}
