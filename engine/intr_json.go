package main

import (
	"encoding/base64"
	"encoding/json"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// encoding/json over engine values: the text may contain symbolic bytes (inside of strings and numbers).

type jfield struct {
	name      string
	index     []int
	typ       types.Type
	omitEmpty bool
	omitZero  bool
	quoted    bool
	tagged    bool
}

var jfCache sync.Map

func jsonFields(t types.Type) []jfield {
	if f, ok := jfCache.Load(t); ok {
		return f.([]jfield)
	}
	type q struct {
		t     types.Type
		index []int
	}
	cur := []q{}
	next := []q{{t: t}}
	visited := map[types.Type]bool{}
	var fields []jfield
	depthOf := map[string][]jfield{}
	var order []string
	for len(next) > 0 {
		cur, next = next, nil
		for _, e := range cur {
			ct := canon(e.t)
			if visited[ct] {
				continue
			}
			visited[ct] = true
			st := e.t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				tag := reflect.StructTag(st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				ft := f.Type()
				bt := ft
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					bt = p.Elem()
				}
				_, isStruct := bt.Underlying().(*types.Struct)
				if f.Anonymous() {
					if !f.Exported() && !isStruct {
						continue
					}
				} else if !f.Exported() {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				idx := append(append([]int{}, e.index...), i)
				jf := jfield{name: name, index: idx, typ: ft, tagged: name != ""}
				for _, o := range parts[1:] {
					switch o {
					case "omitempty":
						jf.omitEmpty = true
					case "omitzero":
						jf.omitZero = true
					case "string":
						jf.quoted = true
					}
				}
				if name != "" || !f.Anonymous() || !isStruct {
					if name == "" {
						jf.name = f.Name()
					}
					if _, ok := depthOf[jf.name]; !ok {
						order = append(order, jf.name)
					}
					depthOf[jf.name] = append(depthOf[jf.name], jf)
					continue
				}
				next = append(next, q{t: bt, index: idx})
			}
		}
	}
	for _, n := range order {
		fs := depthOf[n]
		best := fs[0]
		ok := true
		for _, f := range fs[1:] {
			if len(f.index) < len(best.index) || (len(f.index) == len(best.index) && f.tagged && !best.tagged) {
				best, ok = f, true
			} else if len(f.index) == len(best.index) && f.tagged == best.tagged {
				ok = false
			}
		}
		if ok {
			fields = append(fields, best)
		}
	}
	sort.SliceStable(fields, func(i, j int) bool {
		a, b := fields[i].index, fields[j].index
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	jfCache.Store(t, fields)
	return fields
}

type jsonErr struct{ err Iface }

type jenc struct {
	in   *Interp
	out  []Value
	html bool // escape HTML characters
}

func (e *jenc) s(s string) {
	for i := 0; i < len(s); i++ {
		e.out = append(e.out, uint64(s[i]))
	}
}

func (e *jenc) str(v Value, escHTML bool) {
	if c, ok := v.(string); ok {
		var sb strings.Builder
		enc := json.NewEncoder(&sb)
		enc.SetEscapeHTML(escHTML)
		enc.Encode(c)
		e.s(strings.TrimSuffix(sb.String(), "\n"))
		return
	}
	in := e.in
	b := strBytes(v)
	e.s(`"`)
	for i := 0; i < len(b); i++ {
		t, ok := b[i].(*Term)
		if !ok {
			u := b[i].(uint64)
			if !escHTML && (u == '<' || u == '>' || u == '&') {
				e.s(string(rune(u)))
				continue
			}
			if u < 0x80 {
				q, _ := json.Marshal(string([]byte{byte(u)}))
				e.s(string(q[1 : len(q)-1]))
				continue
			}
			// a run of concrete non ASCII bytes
			j := i
			for j < len(b) {
				if u, ok := b[j].(uint64); !ok || u < 0x80 {
					break
				}
				j++
			}
			cb, _ := concBytes(b[i:j])
			q, _ := json.Marshal(string(cb))
			e.s(string(q[1 : len(q)-1]))
			i = j - 1
			continue
		}
		if t.umax >= 0x80 {
			if in.decide(in.tc.Ule(in.tc.BV(0x80, 8), t)) {
				panic(unsupported("JSON encoding of a symbolic non-ASCII byte"))
			}
		}
		if t.umin < 0x20 {
			if in.decide(in.tc.Ult(t, in.tc.BV(0x20, 8))) {
				c := in.concTerm(t)
				q, _ := json.Marshal(string([]byte{byte(c)}))
				e.s(string(q[1 : len(q)-1]))
				continue
			}
		}
		special := []byte{'"', '\\'}
		if escHTML {
			special = append(special, '<', '>', '&')
		}
		cond := in.tc.tFalse
		for _, c := range special {
			cond = in.tc.Or(cond, in.byteEq(t, uint64(c)))
		}
		if in.decide(cond) {
			c := in.concTerm(t)
			q, _ := json.Marshal(string([]byte{byte(c)}))
			if !escHTML {
				q = []byte(strconv.Quote(string([]byte{byte(c)})))
			}
			e.s(string(q[1 : len(q)-1]))
			continue
		}
		e.out = append(e.out, t)
	}
	e.s(`"`)
}

func (in *Interp) jsonFail(name string, set map[string]Value) {
	panic(jsonErr{in.mkErr("encoding/json", name, set)})
}

func (e *jenc) val(v Value, t types.Type, depth int) {
	in := e.in
	if depth > 200 {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			// only cyclic data nests that deep here; encoding/json reports it after 1000 pointers
			in.jsonFail("UnsupportedValueError", map[string]Value{"Str": "encountered a cycle via " + types.TypeString(t, (*types.Package).Name)})
		}
		if depth > 220 {
			panic(unsupported("deep JSON encoding"))
		}
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		iv := v.(Iface)
		if iv.t == nil {
			e.s("null")
			return
		}
		e.val(iv.v, iv.t, depth+1)
		return
	}
	if p, ok := v.(Ptr); ok && p == nil {
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			e.s("null")
			return
		}
	}
	t = canon(t)
	if f := in.marshalMethod(t, "MarshalJSON"); f != nil {
		r := in.callFn(f, []Value{v}, nil).(Tuple)
		if er := r[1].(Iface); er.t != nil {
			panic(jsonErr{in.mkErr("encoding/json", "MarshalerError", map[string]Value{"Type": in.rtIface(t), "Err": er, "sourceFunc": "MarshalJSON"})})
		}
		raw := r[0].(SliceV)
		n, err := in.jparse(raw)
		if err != "" {
			se := in.mkErr("encoding/json", "SyntaxError", map[string]Value{"msg": err})
			panic(jsonErr{in.mkErr("encoding/json", "MarshalerError", map[string]Value{"Type": in.rtIface(t), "Err": se, "sourceFunc": "MarshalJSON"})})
		}
		e.compact(n, raw)
		return
	}
	if f := in.marshalMethod(t, "MarshalText"); f != nil {
		r := in.callFn(f, []Value{v}, nil).(Tuple)
		if er := r[1].(Iface); er.t != nil {
			panic(jsonErr{er})
		}
		e.str(mkStr(r[0].(SliceV)), e.html)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if in.truth(v) {
				e.s("true")
			} else {
				e.s("false")
			}
		case u.Info()&types.IsString != 0:
			e.str(v, e.html)
		case u.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(t)
			if tm, ok := v.(*Term); ok {
				e.out = append(e.out, strBytes(in.fmtInt(tm, signed))...)
				return
			}
			if signed {
				e.s(strconv.FormatInt(sx(v.(uint64), w), 10))
			} else {
				e.s(strconv.FormatUint(v.(uint64), 10))
			}
		case u.Info()&types.IsFloat != 0:
			if tm, ok := v.(*Term); ok {
				if s, ok := in.fmtFloat(tm); ok {
					e.out = append(e.out, strBytes(s)...)
					return
				}
				panic(unsupported("JSON encoding of a symbolic float"))
			}
			f, _ := asF(v)
			if math.IsNaN(f) || math.IsInf(f, 0) {
				in.jsonFail("UnsupportedValueError", map[string]Value{"Str": strconv.FormatFloat(f, 'g', -1, 64)})
			}
			var b []byte
			if f32, ok := v.(float32); ok {
				b, _ = json.Marshal(f32)
			} else {
				b, _ = json.Marshal(f)
			}
			e.s(string(b))
		default:
			in.jsonFail("UnsupportedTypeError", map[string]Value{"Type": in.rtIface(t)})
		}
	case *types.Struct:
		s := v.(Struct)
		e.s("{")
		first := true
		for _, f := range jsonFields(t) {
			fv, ft, ok := fieldAt(s, t, f.index)
			if !ok {
				continue
			}
			if f.omitEmpty && in.jsonEmpty(fv) {
				continue
			}
			if f.omitZero && in.truth(in.deepEqual(fv, zero(ft), ft)) {
				continue
			}
			if !first {
				e.s(",")
			}
			first = false
			e.str(f.name, e.html)
			e.s(":")
			if f.quoted {
				panic(unsupported("json ,string option"))
			}
			e.val(fv, ft, depth+1)
		}
		e.s("}")
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			e.s("null")
			return
		}
		type kv struct{ k, v Value }
		var es []kv
		for _, en := range m.live() {
			k := en.k
			switch x := k.(type) {
			case uint64:
				w, sg, _ := intInfo(u.Key())
				if sg {
					k = strconv.FormatInt(sx(x, w), 10)
				} else {
					k = strconv.FormatUint(x, 10)
				}
			case string, *SymStr:
			default:
				in.jsonFail("UnsupportedTypeError", map[string]Value{"Type": in.rtIface(t)})
			}
			es = append(es, kv{k, en.v})
		}
		sort.SliceStable(es, func(i, j int) bool { return in.truth(in.strLess(es[i].k, es[j].k)) })
		e.s("{")
		for i, x := range es {
			if i > 0 {
				e.s(",")
			}
			e.str(x.k, e.html)
			e.s(":")
			e.val(x.v, u.Elem(), depth+1)
		}
		e.s("}")
	case *types.Slice:
		s := v.(SliceV)
		if s == nil {
			e.s("null")
			return
		}
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 && in.marshalMethod(canon(u.Elem()), "MarshalJSON") == nil {
			cb, ok := concBytes(s)
			if !ok {
				panic(unsupported("base64 of symbolic bytes"))
			}
			e.s(`"` + base64.StdEncoding.EncodeToString(cb) + `"`)
			return
		}
		e.s("[")
		for i, x := range s {
			if i > 0 {
				e.s(",")
			}
			e.val(x, u.Elem(), depth+1)
		}
		e.s("]")
	case *types.Array:
		e.s("[")
		for i, x := range v.(Array) {
			if i > 0 {
				e.s(",")
			}
			e.val(x, u.Elem(), depth+1)
		}
		e.s("]")
	case *types.Pointer:
		e.val(*(v.(Ptr)), u.Elem(), depth+1)
	default:
		in.jsonFail("UnsupportedTypeError", map[string]Value{"Type": in.rtIface(t)})
	}
}

func fieldAt(s Struct, t types.Type, idx []int) (Value, types.Type, bool) {
	var v Value = s
	for i, k := range idx {
		if i > 0 {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				pp := v.(Ptr)
				if pp == nil {
					return nil, nil, false
				}
				v = *pp
				t = p.Elem()
			}
		}
		st := t.Underlying().(*types.Struct)
		v = v.(Struct)[k]
		t = st.Field(k).Type()
	}
	return v, t, true
}

func (in *Interp) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case string, *SymStr:
		return strLen(x) == 0
	case SliceV:
		return len(x) == 0
	case Array:
		return len(x) == 0
	case *MapV:
		return x.len() == 0
	case bool:
		return !x
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case float32:
		return x == 0
	case Ptr:
		return x == nil
	case Iface:
		return x.t == nil
	case *Term:
		switch x.kind {
		case KBool:
			return !in.decide(x)
		case KBV:
			return in.decide(in.tc.Eq(x, in.tc.BV(0, x.w)))
		}
		return in.decide(in.tc.FEq(x, in.tc.FPc(0, x.w)))
	}
	return false
}

func (in *Interp) marshalMethod(t types.Type, name string) *Func {
	k := mthKey{t, "\x01" + name, nil}
	if fn, ok := in.mthC[k]; ok {
		return fn
	}
	var fn *Func
	if sel := in.p.prog.MethodSets.MethodSet(t).Lookup(nil, name); sel != nil {
		sig := sel.Type().(*types.Signature)
		if sig.Params().Len() == 0 && sig.Results().Len() == 2 {
			if _, isIface := t.Underlying().(*types.Interface); !isIface {
				fn = in.findMethod(t, name, nil)
			}
		}
	}
	in.mthC[k] = fn
	return fn
}

// ---- parsing ----

type jnode struct {
	kind   byte // o a s n b(true) f(false) z(null)
	lo, hi int
	str    Value
	keys   []Value
	klo    []int // the text of the keys
	khi    []int
	kids   []*jnode
}

type jparser struct {
	in  *Interp
	b   []Value
	i   int
	err string
}

func (p *jparser) conc(i int) byte {
	switch x := p.b[i].(type) {
	case uint64:
		return byte(x)
	case *Term:
		return byte(p.in.concTerm(x))
	}
	panic("conc")
}

// oneOf reads byte i, telling apart only the bytes of set when it is symbolic; any other reads as 0xff.
func (p *jparser) oneOf(i int, set string) byte {
	t, ok := p.b[i].(*Term)
	if !ok {
		return byte(p.b[i].(uint64))
	}
	for k := 0; k < len(set); k++ {
		if p.in.decide(p.in.byteEq(t, uint64(set[k]))) {
			return set[k]
		}
	}
	return 0xff
}

func (p *jparser) ws() {
	for p.i < len(p.b) {
		if t, ok := p.b[p.i].(*Term); ok {
			if t.umin > ' ' || len(p.in.prov[t]) > 0 {
				return
			}
			tc := p.in.tc
			if !p.in.decide(tc.Or(tc.Or(p.in.byteEq(t, uint64(' ')), p.in.byteEq(t, uint64('\t'))), tc.Or(p.in.byteEq(t, uint64('\n')), p.in.byteEq(t, uint64('\r'))))) {
				return
			}
			p.i++
			continue
		}
		c := p.conc(p.i)
		if c != ' ' && c != '\t' && c != '\n' && c != '\r' {
			return
		}
		p.i++
	}
}

func quoteChar(c byte) string {
	if c == '\'' {
		return `'\''`
	}
	if c == '"' {
		return `'"'`
	}
	s := strconv.Quote(string([]byte{c}))
	return "'" + s[1:len(s)-1] + "'"
}

func (p *jparser) fail(where string) {
	if p.err != "" {
		return
	}
	if p.i >= len(p.b) {
		p.err = "unexpected end of JSON input"
	} else {
		if _, sym := p.b[p.i].(*Term); sym {
			p.err = "invalid character " + where
			return
		}
		p.err = "invalid character " + quoteChar(p.conc(p.i)) + " " + where
	}
}

// jparse parses a complete document; err is the message of the syntax error.
func (in *Interp) jparse(b []Value) (*jnode, string) {
	p := &jparser{in: in, b: b}
	n := p.value("looking for beginning of value", 0)
	if p.err == "" {
		p.ws()
		if p.i < len(p.b) {
			p.fail("after top-level value")
		}
	}
	if p.err != "" {
		return nil, p.err
	}
	return n, ""
}

func (p *jparser) value(ctx string, depth int) *jnode {
	p.ws()
	if p.i >= len(p.b) || depth > 5000 {
		p.fail(ctx)
		return nil
	}
	n := &jnode{lo: p.i}
	c := p.conc2(p.i)
	switch {
	case c == '{':
		n.kind = 'o'
		p.i++
		p.ws()
		if p.i < len(p.b) && p.oneOf(p.i, "}") == '}' {
			p.i++
			break
		}
		for {
			p.ws()
			if p.i >= len(p.b) || p.oneOf(p.i, "\"") != '"' {
				p.fail("looking for beginning of object key string")
				return nil
			}
			klo := p.i
			k := p.str()
			if p.err != "" {
				return nil
			}
			n.klo, n.khi = append(n.klo, klo), append(n.khi, p.i)
			p.ws()
			if p.i >= len(p.b) || p.oneOf(p.i, ":") != ':' {
				p.fail("after object key")
				return nil
			}
			p.i++
			v := p.value("looking for beginning of value", depth+1)
			if p.err != "" {
				return nil
			}
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, v)
			p.ws()
			if p.i < len(p.b) {
				c := p.oneOf(p.i, ",]}")
				if c == ',' {
					p.i++
					continue
				}
				if c == '}' {
					p.i++
					break
				}
			}
			p.fail("after object key:value pair")
			return nil
		}
	case c == '[':
		n.kind = 'a'
		p.i++
		p.ws()
		if p.i < len(p.b) && p.oneOf(p.i, "]") == ']' {
			p.i++
			break
		}
		for {
			v := p.value("looking for beginning of value", depth+1)
			if p.err != "" {
				return nil
			}
			n.kids = append(n.kids, v)
			p.ws()
			if p.i < len(p.b) {
				c := p.oneOf(p.i, ",]}")
				if c == ',' {
					p.i++
					continue
				}
				if c == ']' {
					p.i++
					break
				}
			}
			p.fail("after array element")
			return nil
		}
	case c == '"':
		n.kind = 's'
		n.str = p.str()
		if p.err != "" {
			return nil
		}
	case c == '-' || c >= '0' && c <= '9':
		n.kind = 'n'
		p.number()
		if p.err != "" {
			return nil
		}
	case c == 't', c == 'f', c == 'n':
		w := map[byte]string{'t': "true", 'f': "false", 'n': "null"}[c]
		for k := 0; k < len(w); k++ {
			if p.i >= len(p.b) || p.oneOf(p.i, w[k:k+1]) != w[k] {
				p.fail("in literal " + w + " (expecting " + quoteChar(w[k]) + ")")
				return nil
			}
			p.i++
		}
		n.kind = map[byte]byte{'t': 'b', 'f': 'f', 'n': 'z'}[c]
	default:
		p.fail(ctx)
		return nil
	}
	n.hi = p.i
	return n
}

// conc2 is conc, except that a symbolic digit reads as a digit.
func (p *jparser) conc2(i int) byte {
	if t, ok := p.b[i].(*Term); ok {
		if t.umin >= '0' && t.umax <= '9' || len(p.in.prov[t]) > 0 || p.in.decide(p.in.inRange(t, '0', '9')) {
			return '1'
		}
		return p.oneOf(i, "{[\"tfn-+.eE")
	}
	return p.conc(i)
}

func (p *jparser) isDigit() bool {
	return p.i < len(p.b) && func() bool { c := p.conc2(p.i); return c >= '0' && c <= '9' }()
}

func (p *jparser) number() {
	for _, r := range p.in.provF {
		if len(r.bytes) > len(p.b)-p.i {
			continue
		}
		same := true
		for i := range r.bytes {
			if p.b[p.i+i] != r.bytes[i] {
				same = false
				break
			}
		}
		if !same {
			continue
		}
		if j := p.i + len(r.bytes); j < len(p.b) {
			if u, ok := p.b[j].(uint64); !ok || u >= '0' && u <= '9' || u == '.' || u == 'e' || u == 'E' {
				continue
			}
		}
		p.i += len(r.bytes)
		return
	}
	c := func() byte {
		if p.i < len(p.b) {
			return p.conc2(p.i)
		}
		return 0
	}
	if c() == '-' {
		p.i++
	}
	if !p.isDigit() {
		p.fail("in numeric literal")
		return
	}
	lead, sym := p.b[p.i].(*Term)
	if n := p.in.provLen(p.b[p.i:]); n > 0 {
		// written by fmtInt: digits without leading zeros
		p.i += n
		for p.isDigit() {
			p.i++
		}
	} else if !sym && c() == '0' || sym && p.in.decide(p.in.byteEq(lead, uint64('0'))) {
		p.i++
	} else {
		for p.isDigit() {
			p.i++
		}
	}
	if c() == '.' {
		p.i++
		if !p.isDigit() {
			p.fail("after decimal point in numeric literal")
			return
		}
		for p.isDigit() {
			p.i++
		}
	}
	if c() == 'e' || c() == 'E' {
		p.i++
		if c() == '+' || c() == '-' {
			p.i++
		}
		if !p.isDigit() {
			p.fail("in exponent of numeric literal")
			return
		}
		for p.isDigit() {
			p.i++
		}
	}
}

func (p *jparser) str() Value {
	in := p.in
	p.i++
	var out []Value
	start := p.i
	_ = start
	for {
		if p.i >= len(p.b) {
			p.fail("in string literal")
			return nil
		}
		x := p.b[p.i]
		if t, ok := x.(*Term); ok {
			if in.decide(in.byteEq(t, uint64('"'))) {
				p.i++
				return mkStr(out)
			}
			if !in.decide(in.byteEq(t, uint64('\\'))) {
				if t.umin < 0x20 && in.decide(in.tc.Ult(t, in.tc.BV(0x20, 8))) {
					p.fail("in string literal")
					return nil
				}
				if t.umax >= 0x80 && in.decide(in.tc.Ule(in.tc.BV(0x80, 8), t)) {
					panic(unsupported("JSON decoding of a symbolic non-ASCII byte"))
				}
				out = append(out, t)
				p.i++
				continue
			}
		} else {
			c := byte(x.(uint64))
			if c == '"' {
				p.i++
				return mkStr(out)
			}
			if c < 0x20 {
				p.fail("in string literal")
				return nil
			}
			if c >= 0x80 {
				j := p.i
				for j < len(p.b) {
					u, ok := p.b[j].(uint64)
					if !ok || u < 0x80 {
						break
					}
					j++
				}
				cb, _ := concBytes(p.b[p.i:j])
				for len(cb) > 0 {
					r, sz := utf8.DecodeRune(cb)
					cb = cb[sz:]
					for _, y := range []byte(string(r)) {
						out = append(out, uint64(y))
					}
				}
				p.i = j
				continue
			}
			if c != '\\' {
				out = append(out, uint64(c))
				p.i++
				continue
			}
		}
		// escape
		p.i++
		if p.i >= len(p.b) {
			p.fail("in string escape code")
			return nil
		}
		c := p.oneOf(p.i, "\"\\/bfnrtu")
		m := map[byte]byte{'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
		if r, ok := m[c]; ok {
			out = append(out, uint64(r))
			p.i++
			continue
		}
		if c != 'u' {
			p.fail("in string escape code")
			return nil
		}
		p.i++
		hex := func(at int) (rune, bool) {
			if at+4 > len(p.b) {
				return 0, false
			}
			var buf [4]byte
			for k := 0; k < 4; k++ {
				buf[k] = p.conc(at + k)
			}
			u, err := strconv.ParseUint(string(buf[:]), 16, 32)
			return rune(u), err == nil
		}
		r, ok := hex(p.i)
		if !ok {
			for p.i < len(p.b) {
				c := p.conc(p.i)
				if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
					break
				}
				p.i++
			}
			p.fail(`in \u hexadecimal character escape`)
			return nil
		}
		p.i += 4
		if r >= 0xd800 && r < 0xdc00 && p.i+6 <= len(p.b) && p.conc(p.i) == '\\' && p.conc(p.i+1) == 'u' {
			if r2, ok := hex(p.i + 2); ok && r2 >= 0xdc00 && r2 < 0xe000 {
				r = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
				p.i += 6
			}
		}
		for _, y := range []byte(string(r)) {
			out = append(out, uint64(y))
		}
	}
}

// compact re-emits the text of a node without insignificant white space.
func (e *jenc) compact(n *jnode, b []Value) {
	switch n.kind {
	case 'o':
		e.s("{")
		for i := range n.kids {
			if i > 0 {
				e.s(",")
			}
			e.raw(b[n.klo[i]:n.khi[i]])
			e.s(":")
			e.compact(n.kids[i], b)
		}
		e.s("}")
	case 'a':
		e.s("[")
		for i := range n.kids {
			if i > 0 {
				e.s(",")
			}
			e.compact(n.kids[i], b)
		}
		e.s("]")
	case 's':
		e.raw(b[n.lo:n.hi])
	default:
		e.out = append(e.out, b[n.lo:n.hi]...)
	}
}

// raw emits the text of a string, with the HTML characters escaped.
func (e *jenc) raw(raw []Value) {
	{
		for _, x := range raw {
			if u, ok := x.(uint64); ok && e.html && (u == '<' || u == '>' || u == '&') {
				e.s("\\u00" + strconv.FormatUint(u, 16))
				continue
			}
			if t, ok := x.(*Term); ok && e.html {
				cond := e.in.tc.tFalse
				for _, c := range []byte("<>&") {
					cond = e.in.tc.Or(cond, e.in.byteEq(t, uint64(c)))
				}
				if e.in.decide(cond) {
					e.s("\\u00" + strconv.FormatUint(e.in.concTerm(t), 16))
					continue
				}
			}
			e.out = append(e.out, x)
		}
	}
}

// ---- decoding ----

type jdec struct {
	in      *Interp
	b       []Value
	saved   Iface
	useNum  bool
	noUnk   bool
	context []string
}

func (d *jdec) typeErr(n *jnode, t types.Type) {
	if d.saved.t != nil {
		return
	}
	desc := map[byte]string{'o': "object", 'a': "array", 's': "string", 'n': "number", 'b': "bool", 'f': "bool"}[n.kind]
	var dv Value = desc
	if n.kind == 'n' {
		if _, ok := t.Underlying().(*types.Basic); ok && !isString(t) {
			if bt := t.Underlying().(*types.Basic); bt.Info()&types.IsBoolean == 0 {
				dv = strConcat("number ", mkStr(d.b[n.lo:n.hi]))
			}
		}
	}
	d.saved = d.in.mkErr("encoding/json", "UnmarshalTypeError", map[string]Value{"Value": dv, "Type": d.in.rtIface(t), "Offset": uint64(n.hi), "Field": strings.Join(d.context, ".")})
}

func (d *jdec) generic(n *jnode) Value {
	in := d.in
	switch n.kind {
	case 'z':
		return Iface{}
	case 's':
		return Iface{t: in.tString(), v: n.str}
	case 'b':
		return Iface{t: canon(types.Typ[types.Bool]), v: true}
	case 'f':
		return Iface{t: canon(types.Typ[types.Bool]), v: false}
	case 'n':
		if d.useNum {
			return Iface{t: in.p.typ("encoding/json", "Number"), v: mkStr(d.b[n.lo:n.hi])}
		}
		v, ok := d.num(n)
		if !ok {
			d.typeErr(n, types.Typ[types.Float64])
			return Iface{}
		}
		return Iface{t: canon(types.Typ[types.Float64]), v: v}
	case 'a':
		s := make(SliceV, len(n.kids))
		for i, k := range n.kids {
			s[i] = d.generic(k)
		}
		// encoding/json grows the slice by append-like steps; spare capacity is not observable here
		return Iface{t: in.tAnySlice(), v: s}
	case 'o':
		m := newMap(in.epoch)
		for i, k := range n.keys {
			in.mapSet(m, k, d.generic(n.kids[i]))
		}
		return Iface{t: in.tAnyMap(), v: m}
	}
	panic("generic")
}

var anyT = types.NewInterfaceType(nil, nil)

func (in *Interp) tString() types.Type { return canon(types.Typ[types.String]) }
func (in *Interp) tAnySlice() types.Type {
	return in.cachedT("anyslice", func() types.Type { return types.NewSlice(anyT) })
}
func (in *Interp) tAnyMap() types.Type {
	return in.cachedT("anymap", func() types.Type { return types.NewMap(types.Typ[types.String], anyT) })
}

func (in *Interp) cachedT(k string, f func() types.Type) types.Type {
	if t, ok := in.tcache[k]; ok {
		return t
	}
	t := canon(f())
	in.tcache[k] = t
	return t
}

func (d *jdec) num(n *jnode) (Value, bool) {
	in := d.in
	raw := d.b[n.lo:n.hi]
	if cb, ok := concBytes(raw); ok {
		f, err := strconv.ParseFloat(string(cb), 64)
		return f, err == nil
	}
	if t, ok := in.provInt(raw); ok {
		return simp(in.tc.SToF(t, 64)), true
	}
	if t, ok := in.provFloat(raw); ok {
		return simp(t), true
	}
	for _, x := range raw {
		if u, ok := x.(uint64); ok && (u == 'e' || u == 'E') {
			f, err := strconv.ParseFloat(in.concStr(mkStr(raw)), 64)
			return f, err == nil
		}
		if t, ok := x.(*Term); ok && t.umax >= 'E' && in.decide(in.tc.Or(in.byteEq(t, uint64('e')), in.byteEq(t, uint64('E')))) {
			f, err := strconv.ParseFloat(in.concStr(mkStr(raw)), 64)
			return f, err == nil
		}
	}
	r := in.callFn(in.p.fnNamed("strconv", "ParseFloat"), []Value{mkStr(raw), uint64(64)}, nil).(Tuple)
	return r[0], r[1].(Iface).t == nil
}

// assign decodes a node into the cell p of type t.
func (d *jdec) assign(n *jnode, p Ptr, t types.Type) {
	in := d.in
	t = canon(t)
	// pointers: allocate
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if um := d.unmarshaler(t); um != nil && n.kind == 'z' {
			_ = um
		}
		if n.kind == 'z' {
			in.store(p, Ptr(nil))
			return
		}
		q, _ := (*p).(Ptr)
		if q == nil {
			q = new(Value)
			*q = zero(pt.Elem())
			in.store(p, q)
		}
		d.assign(n, q, pt.Elem())
		return
	}
	pt := canon(types.NewPointer(t))
	if f := d.unmarshaler(pt); f != nil {
		_, isIface := t.Underlying().(*types.Interface)
		if !isIface {
			raw := make(SliceV, n.hi-n.lo)
			copy(raw, d.b[n.lo:n.hi])
			r := in.callFn(f, []Value{p, raw}, nil).(Iface)
			if r.t != nil && d.saved.t == nil {
				d.saved = r
			}
			return
		}
	}
	if n.kind == 's' {
		if f := in.textUnmarshaler(pt); f != nil {
			r := in.callFn(f, []Value{p, toBytes(n.str)}, nil).(Iface)
			if r.t != nil && d.saved.t == nil {
				d.saved = r
			}
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if n.kind == 'z' {
			in.store(p, Iface{})
			return
		}
		if cur, ok := (*p).(Iface); ok && cur.t != nil {
			if _, isP := cur.t.Underlying().(*types.Pointer); isP {
				if cp, ok := cur.v.(Ptr); ok && cp != nil {
					d.assign(n, cp, cur.t.Underlying().(*types.Pointer).Elem())
					return
				}
			}
		}
		if u.NumMethods() > 0 {
			d.typeErr(n, t)
			return
		}
		in.store(p, d.generic(n))
	case *types.Basic:
		switch n.kind {
		case 'z':
			return
		case 's':
			if u.Info()&types.IsString == 0 {
				d.typeErr(n, t)
				return
			}
			in.store(p, n.str)
		case 'b', 'f':
			if u.Info()&types.IsBoolean == 0 {
				d.typeErr(n, t)
				return
			}
			in.store(p, n.kind == 'b')
		case 'n':
			d.number(n, p, t)
		default:
			d.typeErr(n, t)
		}
	case *types.Map:
		switch n.kind {
		case 'z':
			in.store(p, (*MapV)(nil))
			return
		case 'o':
		default:
			d.typeErr(n, t)
			return
		}
		if !isString(u.Key()) {
			panic(unsupported("json decoding into a map with non-string keys"))
		}
		m, _ := (*p).(*MapV)
		if m == nil {
			m = newMap(in.epoch)
			in.store(p, m)
		}
		for i, k := range n.keys {
			cell := new(Value)
			*cell = zero(u.Elem())
			d.assign(n.kids[i], cell, u.Elem())
			in.mapSet(m, k, *cell)
		}
	case *types.Slice:
		switch n.kind {
		case 'z':
			in.store(p, SliceV(nil))
			return
		case 's':
			if w, _, ok := intInfo(u.Elem()); ok && w == 8 {
				raw, err := base64.StdEncoding.DecodeString(in.concStr(n.str))
				if err != nil {
					d.saved = in.errNew(err.Error())
					return
				}
				in.store(p, bytesVal(raw))
				return
			}
			d.typeErr(n, t)
			return
		case 'a':
		default:
			d.typeErr(n, t)
			return
		}
		s := makeSlice(u.Elem(), len(n.kids), len(n.kids))
		old, _ := (*p).(SliceV)
		for i, k := range n.kids {
			if i < len(old) {
				s[i] = copyVal(old[i])
			}
			d.assign(k, &s[i], u.Elem())
		}
		in.store(p, s)
	case *types.Array:
		if n.kind == 'z' {
			return
		}
		if n.kind != 'a' {
			d.typeErr(n, t)
			return
		}
		a := (*p).(Array)
		for i := range a {
			if i < len(n.kids) {
				d.assign(n.kids[i], &a[i], u.Elem())
			} else {
				in.store(&a[i], zero(u.Elem()))
			}
		}
	case *types.Struct:
		if n.kind == 'z' {
			return
		}
		if n.kind != 'o' {
			d.typeErr(n, t)
			return
		}
		fs := jsonFields(t)
		for i, k := range n.keys {
			var f *jfield
			for j := range fs {
				if in.truth(in.strEq(k, fs[j].name)) {
					f = &fs[j]
					break
				}
			}
			if f == nil {
				if ck, ok := k.(string); ok {
					for j := range fs {
						if strings.EqualFold(ck, fs[j].name) {
							f = &fs[j]
							break
						}
					}
				}
			}
			if f == nil {
				if d.noUnk && d.saved.t == nil {
					d.saved = in.errNew(strConcat(strConcat("json: unknown field \"", k), "\""))
				}
				continue
			}
			cp := p
			ct := t
			for x, fi := range f.index {
				if x > 0 {
					if ptp, ok := ct.Underlying().(*types.Pointer); ok {
						q := (*cp).(Ptr)
						if q == nil {
							q = new(Value)
							*q = zero(ptp.Elem())
							in.store(cp, q)
						}
						cp = q
						ct = ptp.Elem()
					}
				}
				st := ct.Underlying().(*types.Struct)
				cp = &(*cp).(Struct)[fi]
				ct = st.Field(fi).Type()
			}
			d.context = append(d.context, f.name)
			d.assign(n.kids[i], cp, ct)
			d.context = d.context[:len(d.context)-1]
		}
	default:
		d.typeErr(n, t)
	}
}

func (d *jdec) number(n *jnode, p Ptr, t types.Type) {
	in := d.in
	raw := d.b[n.lo:n.hi]
	if isString(t) {
		if nt, ok := t.(*types.Named); ok && nt.Obj().Name() == "Number" {
			in.store(p, mkStr(raw))
			return
		}
		d.typeErr(n, t)
		return
	}
	if w, signed, ok := intInfo(t); ok {
		if tm, ok := in.provInt(raw); ok {
			var inr *Term
			if signed {
				inr = in.tc.And(in.tc.Sle(in.tc.BV(uint64(sminw(w)), 64), tm), in.tc.Sle(tm, in.tc.BV(uint64(smaxw(w)), 64)))
			} else {
				inr = in.tc.Ule(tm, in.tc.BV(maskw(w), 64))
			}
			if !in.decide(inr) {
				d.typeErr(n, t)
				return
			}
			in.store(p, simp(in.tc.Trunc(tm, w)))
			return
		}
		s := in.concStr(mkStr(raw))
		if signed {
			i, err := strconv.ParseInt(s, 10, int(w))
			if err != nil {
				d.typeErr(n, t)
				return
			}
			in.store(p, uint64(i)&maskw(w))
			return
		}
		i, err := strconv.ParseUint(s, 10, int(w))
		if err != nil {
			d.typeErr(n, t)
			return
		}
		in.store(p, i)
		return
	}
	if w, ok := isFloat(t); ok {
		v, ok := d.num(n)
		if !ok {
			d.typeErr(n, t)
			return
		}
		if w == 32 {
			f, isC := v.(float64)
			if !isC {
				panic(unsupported("float32 JSON"))
			}
			in.store(p, float32(f))
			return
		}
		in.store(p, v)
		return
	}
	d.typeErr(n, t)
}

func (d *jdec) unmarshaler(pt types.Type) *Func {
	in := d.in
	k := mthKey{pt, "\x02UnmarshalJSON", nil}
	if fn, ok := in.mthC[k]; ok {
		return fn
	}
	var fn *Func
	if sel := in.p.prog.MethodSets.MethodSet(pt).Lookup(nil, "UnmarshalJSON"); sel != nil {
		sig := sel.Type().(*types.Signature)
		if sig.Params().Len() == 1 && sig.Results().Len() == 1 {
			fn = in.findMethod(pt, "UnmarshalJSON", nil)
		}
	}
	in.mthC[k] = fn
	return fn
}

func (in *Interp) textUnmarshaler(pt types.Type) *Func {
	k := mthKey{pt, "\x02UnmarshalText", nil}
	if fn, ok := in.mthC[k]; ok {
		return fn
	}
	var fn *Func
	if sel := in.p.prog.MethodSets.MethodSet(pt).Lookup(nil, "UnmarshalText"); sel != nil {
		fn = in.findMethod(pt, "UnmarshalText", nil)
	}
	in.mthC[k] = fn
	return fn
}

func (in *Interp) jsonMarshal(v Iface, html bool) (out SliceV, err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				out, err = nil, je.err
				return
			}
			panic(r)
		}
	}()
	e := &jenc{in: in, html: html}
	e.val(v, anyT, 0)
	return SliceV(e.out), Iface{}
}

func (in *Interp) jsonUnmarshal(data []Value, v Iface, useNum, noUnk bool) Iface {
	n, msg := in.jparse(data)
	if msg != "" {
		return in.mkErr("encoding/json", "SyntaxError", map[string]Value{"msg": msg, "Offset": uint64(0)})
	}
	pt, ok := v.t, false
	var el types.Type
	if pt != nil {
		if p, isP := pt.Underlying().(*types.Pointer); isP {
			ok = true
			el = p.Elem()
		}
	}
	if !ok || v.v.(Ptr) == nil {
		return in.mkErr("encoding/json", "InvalidUnmarshalError", map[string]Value{"Type": in.rtIface(pt)})
	}
	d := &jdec{in: in, b: data, useNum: useNum, noUnk: noUnk}
	d.assign(n, v.v.(Ptr), el)
	return d.saved
}

func initJSON(reg regFn) {
	reg(func(in *Interp, fr *frame, a []Value) Value {
		o, e := in.jsonMarshal(a[0].(Iface), true)
		return Tuple{o, e}
	}, "encoding/json.Marshal")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return in.jsonUnmarshal(a[0].(SliceV), a[1].(Iface), false, false)
	}, "encoding/json.Unmarshal")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		_, msg := in.jparse(a[0].(SliceV))
		return msg == ""
	}, "encoding/json.Valid")
	// Encoder / Decoder hold their configuration natively
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return &Native{kind: "jsonenc", v: &jencCfg{w: a[0], html: true}}
	}, "encoding/json.NewEncoder")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return &Native{kind: "jsondec", v: &jdecCfg{r: a[0]}}
	}, "encoding/json.NewDecoder")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		a[0].(*Native).v.(*jdecCfg).useNum = true
		return nil
	}, "(*encoding/json.Decoder).UseNumber")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		a[0].(*Native).v.(*jdecCfg).noUnk = true
		return nil
	}, "(*encoding/json.Decoder).DisallowUnknownFields")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return in.decode(a[0].(*Native).v.(*jdecCfg), a[1].(Iface))
	}, "(*encoding/json.Decoder).Decode")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		c := a[0].(*Native).v.(*jdecCfg)
		if !c.read {
			panic(unsupported("Decoder.More before Decode"))
		}
		p := &jparser{in: in, b: c.buf}
		p.ws()
		return p.i < len(c.buf)
	}, "(*encoding/json.Decoder).More")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		c := a[0].(*Native).v.(*jencCfg)
		c.html = in.truth(a[1])
		return nil
	}, "(*encoding/json.Encoder).SetEscapeHTML")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		c := a[0].(*Native).v.(*jencCfg)
		c.prefix, c.indent = a[1].(string), a[2].(string)
		return nil
	}, "(*encoding/json.Encoder).SetIndent")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		c := a[0].(*Native).v.(*jencCfg)
		o, e := in.jsonMarshal(a[1].(Iface), c.html)
		if e.t != nil {
			return e
		}
		if c.prefix != "" || c.indent != "" {
			b, _ := indentJSON(o, c.prefix, c.indent)
			o = b
		}
		o = append(o, uint64('\n'))
		r := in.callMethod(c.w.(Iface), "Write", o).(Tuple)
		return r[1]
	}, "(*encoding/json.Encoder).Encode")
}

type jdecCfg struct {
	r             Value
	useNum, noUnk bool
	buf           []Value
	read          bool
}

// decode is one call of Decoder.Decode; the reader is read to its end first.
func (in *Interp) decode(c *jdecCfg, v Iface) Value {
	if !c.read {
		t := in.callFn(in.p.fnNamed("io", "ReadAll"), []Value{c.r}, nil).(Tuple)
		if e := t[1].(Iface); e.t != nil {
			return e
		}
		c.buf = append([]Value(nil), t[0].(SliceV)...)
		c.read = true
	}
	p := &jparser{in: in, b: c.buf}
	p.ws()
	if p.i >= len(c.buf) {
		return *(in.global(in.p.globalIdx(in.p.pkgs["io"].Var("EOF"))).(Ptr))
	}
	lo := p.i
	n := p.value("looking for beginning of value", 0)
	if p.err != "" {
		if p.err == "unexpected end of JSON input" {
			return *(in.global(in.p.globalIdx(in.p.pkgs["io"].Var("ErrUnexpectedEOF"))).(Ptr))
		}
		return in.mkErr("encoding/json", "SyntaxError", map[string]Value{"msg": p.err, "Offset": uint64(0)})
	}
	_ = n
	e := in.jsonUnmarshal(append([]Value(nil), c.buf[lo:p.i]...), v, c.useNum, c.noUnk)
	c.buf = c.buf[p.i:]
	return e
}

type jencCfg struct {
	w              Value
	html           bool
	prefix, indent string
}
