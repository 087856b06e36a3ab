package transform

import (
	"encoding/json"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vForeign are sections of another identifier: valid ones that would change the field, and ones that could not be used.
var vForeign = []string{
	``,
	`{"from":[{"jsonPath":"$.b"}]}`,
	`{"from":[{"jsonPath":"$.a","operations":[{"type":"convertToBool"}]}]}`,
	`{"from":[{"jsonPath":"$.b","operations":[{"type":"nosuchoperation"}]}]}`,
	`{"method":"nosuchmethod","from":[{"jsonPath":"$.b"}]}`,
	`{"from":7}`,
	`"text"`,
	`{"id":{"from":[{"jsonPath":"$.b"}]},"from":[{"jsonPath":"$.b"}],"transform":{"id":{"from":[{"jsonPath":"$.b"}]}}}`,
	`null`,
	`[]`,
}

// vSection is a transform member holding the own section (if any) before or after a foreign one; "" if there is neither.
func vSection(own, name, foreign string, after bool) string {
	o, f := "", ""
	if own != "" {
		o = `"id":` + own
	}
	if foreign != "" {
		f = `"` + name + `":` + foreign
	}
	switch {
	case o == "" && f == "":
		return ""
	case o == "" || f == "":
		return `"transform":{` + o + f + `},`
	case after:
		return `"transform":{` + o + `,` + f + `},`
	}
	return `"transform":{` + f + `,` + o + `},`
}

// v15Places are schemas with a %-slot for the transform section of a field, an object, an array, an item and a field of an item.
var v15Places = [][2]string{
	{`{"type":"object","properties":{"a":{`, `"type":"string","default":"d"},"b":{"type":"number"}}}`},
	{`{"type":"object","properties":{"o":{"type":"object","properties":{"a":{`, `"type":"string"}}}}}`},
	{`{"type":"object","properties":{"o":{`, `"type":"object","properties":{"a":{"type":"string"}}}}}`},
	{`{"type":"object","properties":{"l":{`, `"type":"array","items":{"type":"string"}}}}`},
	{`{"type":"object","properties":{"l":{"type":"array","items":{`, `"type":"string"}}}}`},
	{`{"type":"object","properties":{"l":{"type":"array","items":{"type":"object","properties":{"a":{`, `"type":"string"}}}}}}`},
	{`{"type":"object","properties":{"l":{"type":"array","items":{`, `"type":"object","properties":{"a":{"type":"string"}}}}}}`},
}

var v15Own = []string{``, `{"from":[{"jsonPath":"$.c"}]}`, `{"method":"last","from":[{"jsonPath":"$.c"},{"jsonPath":"$.a"}]}`}

// v15Name is the name of a foreign section: other letters, or a name that resembles the identifier.
func v15Name() string {
	switch sym.Choose("name", 6) {
	case 0:
		n := sym.StrN("nm", 2, 'a', 'z')
		sym.Assume(n != "id")
		return n
	case 1:
		return "idx"
	case 2:
		return "i"
	case 3:
		return "ID"
	case 4:
		return "xid"
	}
	return ""
}

func v15Build(text string) (*Transformer, error) {
	s := vSchema(text)
	return NewTransformer(s, "id")
}

// Verif_C15_foreign compares a schema with a section of another identifier with the same schema without it.
// Bounds: one section at one of seven places (field, nested field, object, array, item of scalars and of objects, field of an item),
// the own section absent or one of two, the foreign one before or after it and one of ten kinds (four of them impossible to use),
// its name any two letters, longer, shorter, in capitals or empty; inputs with three keys absent, a symbolic text or a list.
func Verif_C15_foreign() {
	place := v15Places[sym.Choose("place", len(v15Places))]
	own := v15Own[sym.Choose("own", len(v15Own))]
	foreign := vForeign[1+sym.Choose("foreign", len(vForeign)-1)]
	name := v15Name()
	after := sym.Choose("after", 2) == 1
	want, wantErr := v15Build(place[0] + vSection(own, "", "", false) + place[1])
	got, err := v15Build(place[0] + vSection(own, name, foreign, after) + place[1])
	sym.Assert(wantErr == nil, "the schema without foreign sections is accepted")
	if err != nil {
		sym.Fail("a section of another identifier must not make the schema fail: " + err.Error())
	}
	in := map[string]any{"a": sym.StrN("sa", 1, 'a', 'z'), "b": sym.StrN("sb", 1, 'a', 'z')}
	switch sym.Choose("in", 3) {
	case 0:
		in["c"] = sym.StrN("sc", 1, 'a', 'z')
	case 1:
		in["l"] = []any{map[string]any{"a": sym.StrN("sl", 1, 'a', 'z')}, "z"}
		in["o"] = map[string]any{"a": sym.StrN("so", 1, 'a', 'z')}
	case 2:
		in = map[string]any{"b": sym.StrN("sb", 1, 'a', 'z'), "c": []any{map[string]any{"a": "1"}}}
	}
	o1, ok1 := vOut(want, in)
	o2, ok2 := vOut(got, in)
	sym.Assert(ok1 == ok2, "a section of another identifier does not change success")
	sym.Assert(o1 == o2, "a section of another identifier does not change the output")
	sym.Observe("out", o1)
	sym.Reach("end")
}

// Verif_C15_identifier checks that each identifier selects its own section.
// Bounds: a field with the sections of two different identifiers of up to two printable bytes that need no escape each, in both orders, and a transformer for
// either or for a third; symbolic texts at the two sources, the same path and the default.
func Verif_C15_identifier() {
	name := func(n string) string {
		if sym.Choose(n+"low", 2) == 1 {
			return sym.StrIn(n, 2, ']', '~')
		}
		return sym.StrIn(n, 2, '#', '[')
	}
	i1, i2 := name("i1"), name("i2")
	sym.Assume(i1 != i2)
	s := vSchema(`{"type":"object","properties":{"a":{"type":"string","default":"dflt","transform":{"` + i1 + `":{"from":[{"jsonPath":"$.x"}]},"` + i2 + `":{"from":[{"jsonPath":"$.y"}]}}}}}`)
	id := name("id")
	tr, err := NewTransformer(s, id)
	if err != nil {
		sym.Fail("the schema is accepted: " + err.Error())
	}
	in := map[string]any{}
	for _, k := range []string{"x", "y", "a"} {
		if sym.Choose(k, 2) == 1 {
			in[k] = sym.StrN("v"+k, 1, 'a', 'z')
		}
	}
	out, rerr := vRun(tr, in)
	sym.Assert(rerr == nil, "the transform succeeds")
	var want any = "dflt"
	if v, ok := in["a"]; ok {
		want = v
	}
	if id == i1 {
		if v, ok := in["x"]; ok {
			want = v
		}
		sym.Reach("first")
	} else if id == i2 {
		if v, ok := in["y"]; ok {
			want = v
		}
		sym.Reach("second")
	} else {
		sym.Reach("none")
	}
	sym.Assert(vIs(out, map[string]any{"a": want}), "the field comes from the section of the chosen identifier, else from the same path, else the default")
}

// Verif_C15_shared checks that transformers built from one schema do not influence each other.
// Bounds: each schema of the zoo; two or three transformers of one Schema value (the second of another identifier or XML), used in
// alternation on two inputs with symbolic texts; compared with a transformer of its own Schema value.
func Verif_C15_shared() {
	text := vZoo[sym.Choose("schema", len(vZoo))]
	s := vSchema(text)
	t1, err1 := NewTransformer(s, "id")
	var t2 *Transformer
	var err2 error
	switch sym.Choose("second", 3) {
	case 0:
		t2, err2 = NewTransformer(s, "other")
	case 1:
		t2, err2 = NewTransformer(s, "id")
	case 2:
		t2, err2 = NewXMLTransformer(s, "id")
	}
	sym.Assert(err1 == nil && err2 == nil, "the schemas are accepted")
	t3, err3 := NewTransformer(s, "id")
	sym.Assert(err3 == nil, "a schema can be used again")
	lone := vTr(text)
	mk := func(n string) map[string]any {
		in := map[string]any{}
		switch sym.Choose(n, 3) {
		case 0:
			in["a"] = sym.StrN(n+"a", 1, '0', 'z')
			in["b"] = sym.Int(n+"b", -9, 9)
		case 1:
			in["a"] = []any{map[string]any{"a": sym.StrN(n+"a", 1, '0', 'z'), "c": []any{map[string]any{"b": "p"}}}, "x"}
			in["b"] = []any{"p"}
		case 2:
			in["a"] = map[string]any{"a": "1", "b": sym.StrN(n+"a", 1, '0', 'z')}
			in["c"] = []any{"1", "2"}
		}
		return in
	}
	a, b := mk("p"), mk("q")
	wantA, okA := vOut(lone, a)
	if sym.Choose("use", 2) == 1 {
		vOut(t2, b)
		vOut(t1, b)
	}
	gotA, ok := vOut(t1, a)
	sym.Assert(ok == okA && gotA == wantA, "a transformer is not influenced by another one of the same schema")
	gotA, ok = vOut(t3, a)
	sym.Assert(ok == okA && gotA == wantA, "a transformer built later is not influenced by earlier ones of the same schema")
	sym.Reach("end")
}

// Verif_C15_schema checks that building and using a transformer leaves the schema as it was.
// Bounds: each schema of the zoo, one JSON and one XML transformer, one transform with a symbolic text.
func Verif_C15_schema() {
	text := vZoo[sym.Choose("schema", len(vZoo))]
	s := vSchema(text)
	before, err := json.Marshal(s.Instance)
	if err != nil {
		panic("harness schema")
	}
	tr, err := NewTransformer(s, "id")
	sym.Assert(err == nil, "the schema is accepted")
	if _, err := NewXMLTransformer(s, "id"); err != nil {
		sym.Fail("the schema is accepted for XML")
	}
	vOut(tr, map[string]any{"a": sym.StrN("a", 1, '0', 'z'), "b": []any{"1"}})
	after, err := json.Marshal(s.Instance)
	sym.Assert(err == nil && string(after) == string(before), "the schema is not changed by its transformers")
	sym.Reach("end")
}
