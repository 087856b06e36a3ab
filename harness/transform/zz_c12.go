package transform

import (
	"encoding/json"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vNew builds the transformer of a schema whose text may be symbolic.
func vNew(text string) error {
	s := &jsonschema.Schema{Validator: okValidator{}}
	if err := json.Unmarshal([]byte(text), &s.Instance); err != nil {
		return err
	}
	_, err := NewTransformer(s, "id")
	return err
}

func vOpSchema(op string) string {
	return `{"type":"object","properties":{"a":{"type":"string","transform":{"id":{"from":[{"jsonPath":"$.x","operations":[` + op + `]}]}}}}}`
}

type vOpSpec struct {
	name string
	args []string
	vals []string
}

var vOps = []vOpSpec{
	{"changeCase", []string{"to"}, []string{"lower"}},
	{"currentTime", []string{"format"}, []string{"RFC3339"}},
	{"duration", nil, nil},
	{"inverse", nil, nil},
	{"max", []string{"by", "return"}, []string{"@.a", "@.b"}},
	{"replace", []string{"new", "regex"}, []string{"x", "a+"}},
	{"split", []string{"on"}, []string{","}},
	{"timeParse", []string{"format", "layout"}, []string{"2006", "06"}},
	{"toCamelCase", []string{"delimiter"}, []string{"-"}},
	{"removeHTML", nil, nil},
	{"convertToFloat64", nil, nil},
	{"convertToInt64", nil, nil},
	{"convertToBool", nil, nil},
	{"valueExists", nil, nil},
}

func (o vOpSpec) json(name string, skip int, extra string) string {
	s := `{"type":"` + name + `","args":{`
	sep := ""
	for i, a := range o.args {
		if i == skip {
			continue
		}
		s += sep + `"` + a + `":"` + o.vals[i] + `"`
		sep = ","
	}
	if extra != "" {
		s += sep + extra
	}
	return s + "}}"
}

// Verif_C12_name checks that only the known operations are accepted.
// Bounds: each of the 14 operation names with every string of letters put in place of three of its bytes (start, middle or end), and with one
// more byte before or after it.
func Verif_C12_name() {
	o := vOps[sym.Choose("op", len(vOps))]
	var name string
	switch k := sym.Choose("at", 5); k {
	case 3:
		name = o.name + sym.StrN("n", 1, '#', '[')
	case 4:
		name = sym.StrN("n", 1, ' ', '!') + o.name
	default:
		at := []int{0, len(o.name)/2 - 1, len(o.name) - 3}[k]
		name = o.name[:at] + sym.StrN("n", 3, 'A', 'z') + o.name[at+3:]
		for i := at; i < at+3; i++ {
			sym.Assume(name[i] != '\\')
		}
	}
	known := false
	for _, k := range vOps {
		if len(k.name) == len(name) && k.name == name {
			known = true
		}
	}
	err := vNew(vOpSchema(o.json(name, -1, "")))
	sym.Assert((err == nil) == known, "exactly the known operations are accepted when the transformer is built")
	if known {
		sym.Reach("known")
	} else {
		sym.Reach("unknown")
	}
}

// Verif_C12_args checks that the arguments of an operation must be exactly the required ones.
// Bounds: each operation that has arguments, with all, with one missing, with an extra one of three symbolic letters, and with one renamed.
func Verif_C12_args() {
	o := vOps[sym.Choose("op", len(vOps))]
	if len(o.args) == 0 {
		sym.Skip()
	}
	switch sym.Choose("kind", 4) {
	case 0:
		sym.Assert(vNew(vOpSchema(o.json(o.name, -1, ""))) == nil, "the required arguments are accepted")
		sym.Reach("all")
	case 1:
		sym.Assert(vNew(vOpSchema(o.json(o.name, sym.Choose("skip", len(o.args)), ""))) != nil, "a missing argument is an error when the transformer is built")
		sym.Reach("missing")
	case 2:
		extra := sym.StrN("x", 3, 'a', 'z')
		sym.Assume(extra != "new")
		sym.Assert(vNew(vOpSchema(o.json(o.name, -1, `"`+extra+`":"v"`))) != nil, "an argument which is not required is an error when the transformer is built")
		sym.Reach("extra")
	case 3:
		extra := sym.StrN("x", 3, 'a', 'z')
		sym.Assume(extra != "new")
		sym.Assert(vNew(vOpSchema(o.json(o.name, sym.Choose("skip", len(o.args)), `"`+extra+`":"v"`))) != nil, "a renamed argument is an error when the transformer is built")
		sym.Reach("renamed")
	}
}

// Verif_C12_case checks the argument of changeCase.
// Bounds: every string of 0 to 3 and of 5 printable bytes that need no escape.
func Verif_C12_case() {
	n := []int{5, 0, 1, 2, 3}[sym.Choose("n", 5)]
	to := sym.StrN("to", n, '#', '~')
	for i := range to {
		sym.Assume(to[i] != '\\')
	}
	err := vNew(vOpSchema(`{"type":"changeCase","args":{"to":"` + to + `"}}`))
	sym.Assert((err == nil) == (to == "lower" || to == "upper"), "changeCase goes to lower or upper and nothing else")
	sym.Reach("end")
}

// Verif_C12_method checks the method of a transform.
// Bounds: every string of 0 to 5 bytes of '#' to '[' or of ']' to '~', and every concatenat? and ?oncatenate.
func Verif_C12_method() {
	m := ""
	switch sym.Choose("kind", 4) {
	case 0:
		m = sym.StrIn("m", 5, '#', '[')
	case 3:
		m = sym.StrIn("m", 5, ']', '~')
	case 1:
		m = "concatenat" + sym.StrIn("m", 1, 'a', 'z')
	case 2:
		m = sym.StrIn("m", 1, 'a', 'z') + "oncatenate"
	}
	err := vNew(`{"type":"object","properties":{"a":{"type":"string","transform":{"id":{"method":"` + m + `","from":[{"jsonPath":"$.x"}]}}}}}`)
	known := m == "" || m == "first" || m == "last" || m == "concatenate"
	sym.Assert((err == nil) == known, "exactly the known methods are accepted when the transformer is built")
	if known {
		sym.Reach("known")
	} else {
		sym.Reach("unknown")
	}
}

// Verif_C12_regex checks that an expression which does not compile is an error.
// Bounds: six bad expressions and every one of two letters.
func Verif_C12_regex() {
	bad := []string{"(", "[a", "*", "a{2,1}", "(?<x", "a)"}
	k := sym.Choose("re", len(bad)+1)
	if k < len(bad) {
		sym.Assert(vNew(vOpSchema(`{"type":"replace","args":{"regex":"`+bad[k]+`","new":""}}`)) != nil, "a bad expression is an error when the transformer is built")
		sym.Reach("bad")
		return
	}
	re := sym.StrN("r", 2, 'a', 'c')
	sym.Assert(vNew(vOpSchema(`{"type":"replace","args":{"regex":"`+re+`","new":""}}`)) == nil, "a plain expression is accepted")
	sym.Reach("good")
}

// Verif_C12_place checks that a bad instruction is found wherever it is in the schema.
// Bounds: an operation name of three symbolic letters as the second operation of the second instruction of a field at the root, in
// an object, in an object of an array, as the item of an array, on an array and on an object; accepted exactly when it is "max".
func Verif_C12_place() {
	name := sym.StrN("n", 3, 'a', 'z')
	t := `"transform":{"id":{"from":[{"jsonPath":"$.x"},{"jsonPath":"$.y","operations":[{"type":"inverse"},{"type":"` + name + `","args":{"by":"@.a","return":"@.b"}}]}]}}`
	f := `{"type":"string",` + t + `}`
	schema := ""
	switch sym.Choose("place", 6) {
	case 0:
		schema = `"a":` + f
	case 1:
		schema = `"o":{"type":"object","properties":{"z":{"type":"number"},"a":` + f + `}}`
	case 2:
		schema = `"l":{"type":"array","items":{"type":"object","properties":{"a":` + f + `}}}`
	case 3:
		schema = `"l":{"type":"array","items":` + f + `}`
	case 4:
		schema = `"l":{"type":"array","items":{"type":"string"},` + t + `}`
	case 5:
		schema = `"o":{"type":"object","properties":{"z":{"type":"number"}},` + t + `}`
	}
	err := vNew(`{"type":"object","properties":{` + schema + `}}`)
	sym.Assert((err == nil) == (name == "max"), "an unknown operation is found anywhere in the schema")
	sym.Reach("end")
}
