package transform

import (
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// Verif_C04_order checks where a scalar takes its value from.
// Bounds: each scalar type; with and without a transform ($.src); the source and the same path each absent, null, a boolean, a number of
// one digit, an empty or one letter text, an integer of 8 digits, an object, an empty list or a list of one number or of two texts; no
// default, a null default, a usual or a zero one. The field is in the root object. Date-times from numbers: 0 to 9 seconds.
func Verif_C04_order() {
	typ := vTypes[sym.Choose("type", 5)]
	dtext, dflt := vDefault(typ, sym.Choose("default", 4))
	in := map[string]any{}
	same := vKind("same", 11)
	if same.ok {
		in["f"] = same.v
	}
	trText := ""
	src := vSet{}
	if sym.Choose("transform", 2) == 1 {
		trText = `,"transform":{"id":{"from":[{"jsonPath":"$.src"}]}}`
		src = vKind("src", 11)
		if src.ok {
			in["src"] = src.v
		}
	}
	tr := vTr(`{"type":"object","properties":{"f":` + vScalar(typ, dtext+trText) + `}}`)
	want, bad := vConvert(src, typ)
	if bad {
		// the documentation does not say what a transform does with a value it cannot convert
		sym.Skip()
	}
	if !want.ok {
		if want, bad = vConvert(same, typ); bad {
			want = vSet{}
		}
	}
	if !want.ok {
		want = dflt
	}
	out, err := vRun(tr, in)
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, want, "f")
}

// Verif_C04_places checks the same order for fields in nested objects, in array items and for items themselves.
// Bounds: each scalar type; source and same path absent, null, a boolean or a one digit number; default or none; five places.
func Verif_C04_places() {
	typ := vTypes[sym.Choose("type", len(vTypes))]
	dtext, dflt := vDefault(typ, []int{0, 2}[sym.Choose("default", 2)])
	place := sym.Choose("place", 5)
	src, same := vKind("src", 4), vKind("same", 4)
	item := func(m map[string]any, k string, s vSet) {
		if s.ok {
			m[k] = s.v
		}
	}
	in := map[string]any{}
	var schema string
	var path []any
	t := func(p string) string { return `,"transform":{"id":{"from":[{"jsonPath":"` + p + `"}]}}` }
	obj := func(props string) string { return `{"type":"object","properties":{` + props + `}}` }
	switch place {
	case 0: // a nested object
		schema = obj(`"o":` + obj(`"p":`+obj(`"f":`+vScalar(typ, dtext+t("$.x.y")))))
		p, x := map[string]any{}, map[string]any{}
		item(p, "f", same)
		item(x, "y", src)
		in["o"], in["x"] = map[string]any{"p": p}, x
		path = []any{"o", "p", "f"}
	case 1: // an array item, relative path
		schema = obj(`"l":{"type":"array","items":` + obj(`"k":{"type":"string","default":"k"},"f":`+vScalar(typ, dtext+t("@.y"))) + `}`)
		it := map[string]any{}
		item(it, "f", same)
		item(it, "y", src)
		in["l"] = []any{map[string]any{"f": 77, "y": 78}, it}
		path = []any{"l", 1, "f"}
	case 2: // an array item, absolute path, array with a transform
		schema = obj(`"l":{"type":"array"` + t("$.m") + `,"items":` + obj(`"k":{"type":"string","default":"k"},"f":`+vScalar(typ, dtext+t("$.x"))) + `}`)
		it := map[string]any{}
		item(it, "f", same)
		item(in, "x", src)
		in["m"] = []any{map[string]any{"f": 77}, it}
		path = []any{"l", 1, "f"}
	case 3: // the whole document is the parent of the paths
		schema = obj(`"o":` + obj(`"f":`+vScalar(typ, dtext+t("$.o.g"))+`,"g":{"type":"boolean"}`))
		o := map[string]any{}
		item(o, "f", same)
		item(o, "g", src)
		in["o"] = o
		path = []any{"o", "f"}
	case 4: // the parent comes from a transform
		schema = obj(`"o":{"type":"object"` + t("$.p") + `,"properties":{"f":` + vScalar(typ, dtext+t("$.p.y")) + `,"k":{"type":"string","default":"k"}}}`)
		o, p := map[string]any{}, map[string]any{}
		item(o, "f", same)
		item(p, "y", src)
		in["o"], in["p"] = o, p
		path = []any{"o", "f"}
	}
	want, bad := vConvert(src, typ)
	if bad {
		sym.Skip() // as above
	}
	if !want.ok {
		if want, bad = vConvert(same, typ); bad {
			want = vSet{}
		}
	}
	if !want.ok {
		want = dflt
	}
	out, err := vRun(vTr(schema), in)
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, want, path...)
}

// Verif_C04_empty checks that an input without anything gives the defaults and nothing else.
// Bounds: three fields of each type with every choice of defaults; inputs {}, null, a list, a text or a number.
func Verif_C04_empty() {
	schema := `{"type":"object","properties":{`
	want := map[string]any{}
	for i, f := range []string{"a", "b", "c"} {
		typ := vTypes[sym.Choose(f+"type", 5)]
		dtext, dflt := vDefault(typ, sym.Choose(f+"default", 4))
		if i > 0 {
			schema += ","
		}
		schema += `"` + f + `":` + vScalar(typ, dtext)
		if dflt.ok {
			want[f] = dflt.v
		}
	}
	in := []any{map[string]any{}, nil, []any{}, "x", 5}[sym.Choose("in", 5)]
	out, err := vRun(vTr(schema+`}}`), in)
	sym.Assert(err == nil, "the transform succeeds")
	if len(want) == 0 {
		sym.Assert(out == nil, "an output without fields is null")
		sym.Reach("null")
		return
	}
	sym.Assert(vIs(out, want), "the output consists of the defaults")
	sym.Reach("defaults")
}
