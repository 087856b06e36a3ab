package transform

import (
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vOrders compares a transform with map iterations in insertion order with one in any other order.
func vOrders(schema string, x any) {
	a, b := vFresh(schema, "one"), vFresh(schema, "two")
	sym.MapOrder(0, 3)
	want, ok1 := vOut(a, x)
	sym.MapOrder(1, 3)
	got, ok2 := vOut(b, x)
	sym.MapOrder(0, 3)
	sym.Assert(ok1 == ok2, "whether an input is an error does not depend on the order of map iterations")
	sym.Assert(!ok1 || got == want, "the output does not depend on the order of map iterations")
	sym.Reach("end")
}

// Verif_C03_zoo checks that a transform is a function of schema and input.
// Bounds: 16 schemas that combine every feature; inputs of depth 2 with at most one key per object and lists of up to two
// elements; every order of every iteration over a map of up to three entries.
func Verif_C03_zoo() {
	vOrders(vZoo[sym.Choose("schema", len(vZoo))], vThin("x", 2))
}

// Verif_C03_siblings checks the same for objects with several keys.
// Bounds: the same schemas; objects with two of the keys a, b, c, one of depth 1, the other (thorough: either) of depth 0; every order.
func Verif_C03_siblings() {
	ks := []string{"a", "b", "c"}
	i := sym.Choose("i", 3)
	j := (i + 1) % 3
	if sym.Tier() == 1 {
		j = (i + 1 + sym.Choose("j", 2)) % 3
	}
	vOrders(vZoo[sym.Choose("schema", len(vZoo))], map[string]any{ks[i]: vThin("x", 1), ks[j]: vThin("y", 0)})
}

// Verif_C03_paths checks fields that read what another field of the output is named after.
// Bounds: four schemas where an array with a transform and its siblings read overlapping paths; inputs with one to two
// symbolic elements in each list; every order of the fields.
func Verif_C03_paths() {
	k := sym.Choose("schema", 4)
	schema := []string{
		// the array a comes from $.b, the field c reads $.a
		`{"type":"object","properties":{"a":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.b"}]}},"items":{"type":"string"}},"c":{"type":"string","transform":{"id":{"from":[{"jsonPath":"$.a"}]}}}}}`,
		// two arrays swap
		`{"type":"object","properties":{"a":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.b"}]}},"items":{"type":"string"}},"b":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.a"}]}},"items":{"type":"string"}}}}`,
		// an array with a default and a field that reads its path
		`{"type":"object","properties":{"l":{"type":"array","default":["d"],"items":{"type":"string"}},"c":{"type":"string","default":"none","transform":{"id":{"from":[{"jsonPath":"$.l[0]"}]}}}}}`,
		// nested: items of a read $.b, b comes from $.c
		`{"type":"object","properties":{"b":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.c"}]}},"items":{"type":"string"}},"a":{"type":"array","items":{"type":"object","properties":{"x":{"type":"string","transform":{"id":{"from":[{"jsonPath":"$.b[0]"}]}}}}}}}}`,
	}[k]
	list := func(name string) []any {
		l := []any{sym.StrN(name+"0", 1, 'a', 'z')}
		if sym.Choose(name+"two", 2) == 1 {
			l = append(l, sym.StrN(name+"1", 1, 'a', 'z'))
		}
		return l
	}
	x := map[string]any{}
	for _, f := range []string{"b", "c"} {
		if sym.Choose(f+"has", 2) == 1 {
			x[f] = list(f)
		}
	}
	if sym.Choose("ahas", 2) == 1 {
		x["a"] = []any{map[string]any{"x": "q"}}
	}
	vOrders(schema, x)
}

// Verif_C03_convert checks that the conversion of one field is not seen by another.
// Bounds: fields a and b of any two of the five scalar types; a is copied, or has a transform from a path that is mostly absent; b (thorough: and c)
// reads the path of a; at the root, in an object or in the items of a list; values that convert to most types; every order of the fields.
func Verif_C03_convert() {
	field := func(typ, path string) string {
		s := `{"type":"` + typ + `"`
		if typ == "date-time" {
			s = `{"type":"string","format":"date-time"`
		}
		if path != "" {
			s += `,"transform":{"id":{"from":[{"jsonPath":"` + path + `"}]}}`
		}
		return s + `}`
	}
	place := sym.Choose("place", 3)
	base := []string{"$.", "$.o.", "@."}[place]
	own := []string{"", base + "n"}[sym.Choose("own", 2)]
	props := `"a":` + field(vTypes[sym.Choose("ta", 5)], own) + `,"b":` + field(vTypes[sym.Choose("tb", 5)], base+"a")
	if sym.Tier() == 1 {
		props += `,"c":` + field("string", base+"a")
	}
	obj := `{"type":"object","properties":{` + props + `}}`
	m := map[string]any{}
	switch sym.Choose("value", 9) {
	case 0:
		m["a"] = sym.StrN("digit", 1, '0', '9') + ".50"
	case 1:
		m["a"] = []string{"true", "False", "", "2020-01-02T03:04:05+01:00"}[sym.Choose("text", 4)]
	case 2:
		m["a"] = sym.Int("n", -3, 3)
	case 3:
		m["a"] = sym.Bool("b")
	case 4:
		m["a"] = nil
	case 5:
		m["a"] = []any{sym.StrN("e", 1, '0', '9')}
	case 6:
		m["a"] = []any{sym.StrN("e", 1, '0', '9'), "x"}
	case 7:
		m["a"] = map[string]any{"k": "v"}
	case 8:
	}
	if own != "" && sym.Choose("has", 2) == 1 {
		m["n"] = sym.StrN("own", 1, '0', '9')
	}
	switch place {
	case 0:
		vOrders(obj, m)
	case 1:
		vOrders(`{"type":"object","properties":{"o":`+obj+`}}`, map[string]any{"o": m})
	case 2:
		vOrders(`{"type":"object","properties":{"l":{"type":"array","items":`+obj+`}}}`, map[string]any{"l": []any{m, map[string]any{"a": "7"}}})
	}
}
