package transform

import (
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vSrc is a source of a combination: absent, null, empty, one or two letters, a number, a boolean, a list, an empty list.
func vSrc(name string, kinds int) vSet {
	switch sym.Choose(name+"kind", kinds) {
	case 0:
		return vSet{}
	case 1:
		return vSet{sym.StrN(name, 1, 'a', 'z'), true}
	case 2:
		return vSet{"", true}
	case 3:
		return vSet{nil, true}
	case 4:
		return vSet{sym.Int(name+"n", -9, 9), true}
	case 5:
		return vSet{sym.StrN(name, 2, ' ', '~'), true}
	case 6:
		return vSet{[]any{}, true}
	case 7:
		return vSet{[]any{sym.StrN(name, 1, 'a', 'z'), "q"}, true}
	}
	panic("vSrc")
}

func vMethodSchema(typ, method, delim string, paths int) string {
	s := `{"type":"object","properties":{"f":` + `{"type":"` + typ + `","default":"none","transform":{"id":{`
	if method != "" {
		s += `"method":"` + method + `",`
	}
	if delim != "" {
		s += `"methodOptions":{"concatenateDelimiter":"` + delim + `"},`
	}
	s += `"from":[`
	for i := 0; i < paths; i++ {
		if i > 0 {
			s += ","
		}
		s += `{"jsonPath":"$.` + string(rune('a'+i)) + `"}`
	}
	return s + `]}}}}}`
}

// vSources sets the sources and returns those with a value, converted to texts.
func vSources(paths, kinds int) (in map[string]any, vals []vSet) {
	in = map[string]any{}
	for i := 0; i < paths; i++ {
		k := string(rune('a' + i))
		v := vSrc(k, kinds)
		if v.ok {
			in[k] = v.v
		}
		c, bad := vConvert(v, "string")
		sym.Assert(!bad, "harness")
		vals = append(vals, c)
	}
	return in, vals
}

func vMethodResult(schema string, in any, want vSet) {
	out, err := vRun(vTr(schema), in)
	sym.Assert(err == nil, "texts can be combined by every method")
	if !want.ok {
		want = vSet{"none", true}
		sym.Reach("default")
	}
	vExpect(out, want, "f")
}

// Verif_C05_pick checks which source a field takes with first, last and no method.
// Bounds: one to three paths (thorough: to four), each source absent, null, an empty text, a text of one letter or of two characters, a number,
// an empty list or a list of two texts.
func Verif_C05_pick() {
	m := []string{"", "first", "last"}[sym.Choose("method", 3)]
	n := 1 + sym.Choose("paths", 3+sym.Tier())
	in, vals := vSources(n, 8)
	var want vSet
	for i := range vals {
		v := vals[i]
		if m == "last" {
			v = vals[n-1-i]
		}
		if v.ok {
			want = v
			break
		}
	}
	vMethodResult(vMethodSchema("string", m, "", n), in, want)
}

// Verif_C05_many checks the methods with many paths.
// Bounds: four to six (thorough: eight) paths, each source absent or a text of one letter; each method.
func Verif_C05_many() {
	m := []string{"", "first", "last", "concatenate"}[sym.Choose("method", 4)]
	n := 4 + sym.Choose("paths", 3+2*sym.Tier())
	in, vals := vSources(n, 2)
	d := ""
	if m == "concatenate" {
		d = "/"
	}
	var want vSet
	for _, v := range vals {
		switch {
		case !v.ok:
		case !want.ok || m == "last":
			want = v
		case m == "concatenate":
			want.v = want.v.(string) + d + v.v.(string)
		}
	}
	vMethodResult(vMethodSchema("string", m, d, n), in, want)
}

// Verif_C05_concat checks the concatenation.
// Bounds: one to two paths with the sources of pick, three without lists (thorough: four without numbers); delimiters "", "-", ", " and one that is also a letter of the texts.
func Verif_C05_concat() {
	d := []string{"", "-", ", ", "a"}[sym.Choose("delim", 4)]
	n := 1 + sym.Choose("paths", 3+sym.Tier())
	kinds := 8
	if n == 3 {
		kinds = 5
	} else if n > 3 {
		kinds = 4
	}
	in, vals := vSources(n, kinds)
	var want vSet
	for _, v := range vals {
		switch {
		case !v.ok:
		case !want.ok:
			want = v
		default:
			a, b := want.v.(string), v.v.(string)
			if a != "" && b != "" {
				a += d
			}
			want.v = a + b
		}
	}
	vMethodResult(vMethodSchema("string", "concatenate", d, n), in, want)
}

// Verif_C05_mixed checks that values which cannot be concatenated are an error, and a single value is not.
// Bounds: number fields; three sources, each absent, null, a one digit number or a letter; concatenate, first and last.
func Verif_C05_mixed() {
	m := []string{"first", "last", "concatenate"}[sym.Choose("method", 3)]
	in := map[string]any{}
	var vals []any
	for _, k := range []string{"a", "b", "c"} {
		switch sym.Choose(k+"kind", 4) {
		case 1:
			in[k] = nil
		case 2:
			in[k] = sym.Int(k+"n", -9, 9)
			vals = append(vals, in[k])
		case 3:
			in[k] = sym.StrN(k+"s", 1, 'g', 's')
			vals = append(vals, in[k])
		}
	}
	out, err := vRun(vTr(vMethodSchema("number", m, "", 3)), in)
	var want vSet
	switch {
	case len(vals) == 0:
		want = vSet{"none", true}
	case m == "first":
		want = vSet{vals[0], true}
	case m == "last":
		want = vSet{vals[len(vals)-1], true}
	case len(vals) == 1:
		want = vSet{vals[0], true}
	default:
		s := ""
		for _, v := range vals {
			t, ok := v.(string)
			if !ok {
				sym.Assert(err != nil, "values that are not all texts cannot be concatenated")
				sym.Reach("error")
				return
			}
			s += t
		}
		want = vSet{s, true}
	}
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, want, "f")
}

// Verif_C05_ops checks that each path has its own operations and that a source found first settles the field.
// Bounds: three paths of which each has one of three operations (upper, replace a by b, none); each source absent or of one letter; each method.
func Verif_C05_ops() {
	m := []string{"first", "last", "concatenate"}[sym.Choose("method", 3)]
	schema := `{"type":"object","properties":{"f":{"type":"string","transform":{"id":{"method":"` + m + `","from":[`
	in := map[string]any{}
	var vals []string
	for i, k := range []string{"a", "b", "c"} {
		op := sym.Choose(k+"op", 3)
		schema += []string{"", ","}[min(i, 1)] + `{"jsonPath":"$.` + k + `","operations":[` + []string{``, `{"type":"changeCase","args":{"to":"upper"}}`, `{"type":"replace","args":{"regex":"a","new":"b"}}`}[op] + `]}`
		if sym.Choose(k+"has", 2) == 1 {
			v := sym.StrN(k, 1, 'a', 'z')
			in[k] = v
			switch op {
			case 1:
				v = string([]byte{v[0] - 32})
			case 2:
				if v == "a" {
					v = "b"
				}
			}
			vals = append(vals, v)
		}
	}
	var want vSet
	if len(vals) > 0 {
		switch m {
		case "first":
			want = vSet{vals[0], true}
		case "last":
			want = vSet{vals[len(vals)-1], true}
		default:
			s := ""
			for _, v := range vals {
				s += v
			}
			want = vSet{s, true}
		}
	}
	out, err := vRun(vTr(schema+`]}}}}}`), in)
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, want, "f")
}

// Verif_C05_array checks the methods for array and object fields.
// Bounds: an array of strings from two lists, each absent, null, empty or of one or two letters; an object from two objects, each absent, null or
// with one letter; first and last.
func Verif_C05_array() {
	m := []string{"first", "last"}[sym.Choose("method", 2)]
	tr := `"transform":{"id":{"method":"` + m + `","from":[{"jsonPath":"$.a"},{"jsonPath":"$.b"}]}}`
	in := map[string]any{}
	var vals []any
	if sym.Choose("object", 2) == 1 {
		for _, k := range []string{"a", "b"} {
			switch sym.Choose(k+"kind", 3) {
			case 1:
				in[k] = nil
			case 2:
				in[k] = map[string]any{"p": sym.StrN(k, 1, 'a', 'z')}
				vals = append(vals, in[k])
			}
		}
		out, err := vRun(vTr(`{"type":"object","properties":{"f":{"type":"object",`+tr+`,"properties":{"z":{"type":"string"}}}}}`), in)
		sym.Assert(err == nil, "the transform succeeds")
		vExpect(out, vLast(vals, m), "f")
		return
	}
	for _, k := range []string{"a", "b"} {
		switch sym.Choose(k+"kind", 5) {
		case 1:
			in[k] = nil
		case 2:
			in[k] = []any{}
		case 3:
			in[k] = []any{sym.StrN(k, 1, 'a', 'z')}
			vals = append(vals, in[k])
		case 4:
			in[k] = []any{sym.StrN(k, 1, 'a', 'z'), sym.StrN(k+"2", 1, 'a', 'z')}
			vals = append(vals, in[k])
		}
	}
	out, err := vRun(vTr(`{"type":"object","properties":{"f":{"type":"array",`+tr+`,"items":{"type":"string"}}}}`), in)
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, vLast(vals, m), "f")
}

func vLast(vals []any, m string) vSet {
	if len(vals) == 0 {
		return vSet{}
	}
	if m == "last" {
		return vSet{vals[len(vals)-1], true}
	}
	return vSet{vals[0], true}
}
