package transform

import (
	"strconv"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vSet says whether a JSON value is there.
type vSet struct {
	v  any
	ok bool
}

// vKind is one of the values a source may hold: absent, null, a boolean, a number, an empty or a one letter text, an object, lists.
// Kinds 0 to 6 are scalars, 7 is an object, 8 an empty list, 9 a list of a number, 10 a list of two texts.
func vKind(name string, kinds int) vSet {
	switch sym.Choose(name+"kind", kinds) {
	case 0:
		return vSet{}
	case 1:
		return vSet{nil, true}
	case 2:
		return vSet{sym.Bool(name + "b"), true}
	case 3:
		return vSet{sym.Int(name+"n", -9, 9), true}
	case 4:
		return vSet{"", true}
	case 5:
		return vSet{sym.StrN(name+"s", 1, 'g', 's'), true}
	case 6:
		return vSet{sym.Int(name+"big", -99999999, 99999999), true}
	case 7:
		return vSet{map[string]any{"q": "1"}, true}
	case 8:
		return vSet{[]any{}, true}
	case 9:
		return vSet{[]any{sym.Int(name+"ln", -9, 9)}, true}
	case 10:
		return vSet{[]any{sym.StrN(name+"l0", 1, 'g', 's'), "zz"}, true}
	}
	panic("vKind")
}

// vConvert is the reference for the conversion of a vKind value to a scalar type. The result is absent when the value stands
// for nothing, and bad when it has no counterpart in the type.
func vConvert(in vSet, typ string) (out vSet, bad bool) {
	if !in.ok || in.v == nil {
		return vSet{}, false
	}
	if l, ok := in.v.([]any); ok {
		if len(l) == 0 {
			return vSet{}, false
		}
		return vConvert(vSet{l[0], true}, typ)
	}
	switch v := in.v.(type) {
	case bool:
		switch typ {
		case "boolean":
			return vSet{v, true}, false
		case "string":
			if v {
				return vSet{"true", true}, false
			}
			return vSet{"false", true}, false
		case "number", "integer":
			if v {
				return vSet{1, true}, false
			}
			return vSet{0, true}, false
		}
	case int:
		switch typ {
		case "boolean":
			return vSet{v > 0, true}, false
		case "string":
			return vSet{strconv.Itoa(v), true}, false
		case "number", "integer":
			return vSet{v, true}, false
		case "date-time":
			sym.Assume(v >= 0 && v <= 9)
			return vSet{"1970-01-01T00:00:0" + strconv.Itoa(v) + "Z", true}, false
		}
	case string:
		switch typ {
		case "string":
			return vSet{v, true}, false
		case "boolean":
			if v == "" {
				return vSet{false, true}, false
			}
		default:
			if v == "" {
				return vSet{}, false
			}
		}
	}
	return vSet{}, true
}

// vGet reads a path of keys and indexes.
func vGet(v any, path ...any) (any, bool) {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, ok := v.(map[string]any)
			if !ok {
				return nil, false
			}
			if v, ok = m[k]; !ok {
				return nil, false
			}
		case int:
			l, ok := v.([]any)
			if !ok || k >= len(l) {
				return nil, false
			}
			v = l[k]
		}
	}
	return v, true
}

// vExpect compares the value of a field with the expected one.
func vExpect(out any, want vSet, path ...any) {
	got, ok := vGet(out, path...)
	if !want.ok {
		sym.Assert(!ok, "a field without a value is left out")
		sym.Reach("absent")
		return
	}
	sym.Assert(ok, "a field with a value is in the output")
	sym.Assert(vIs(got, want.v), "the field has the expected value")
	sym.Observe("got", vShow(got))
	sym.Reach("present")
}

var vTypes = []string{"string", "number", "boolean", "integer", "date-time"}

// vScalar is the schema text of a field.
func vScalar(typ, rest string) string {
	if typ == "date-time" {
		return `{"type":"string","format":"date-time"` + rest + `}`
	}
	return `{"type":"` + typ + `"` + rest + `}`
}

func vObject(props string) string { return `{"type":"object","properties":{` + props + `}}` }
func vArray(from, items string) string {
	if from != "" {
		from = `"transform":{"id":{"from":[{"jsonPath":"` + from + `"}]}},`
	}
	return `{"type":"array",` + from + `"items":` + items + `}`
}
func vFrom(typ, from string) string {
	return `{"type":"` + typ + `","transform":{"id":{"from":[{"jsonPath":"` + from + `"}]}}}`
}

// vDefault returns schema text and value of one of several defaults.
func vDefault(typ string, k int) (string, vSet) {
	switch k {
	case 0:
		return "", vSet{}
	case 1:
		return `,"default":null`, vSet{}
	}
	switch typ {
	case "string":
		if k == 2 {
			return `,"default":"dflt"`, vSet{"dflt", true}
		}
		return `,"default":""`, vSet{"", true}
	case "boolean":
		if k == 2 {
			return `,"default":true`, vSet{true, true}
		}
		return `,"default":false`, vSet{false, true}
	case "date-time":
		return `,"default":"2001-02-03T04:05:06Z"`, vSet{"2001-02-03T04:05:06Z", true}
	}
	if k == 2 {
		return `,"default":42`, vSet{42, true}
	}
	return `,"default":0`, vSet{0, true}
}

func vListResult(out any, err error, want []any, path ...any) {
	sym.Assert(err == nil, "the transform succeeds")
	if len(want) == 0 {
		vExpect(out, vSet{}, path...)
		return
	}
	vExpect(out, vSet{want, true}, path...)
}
