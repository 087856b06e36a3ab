package generate

import (
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// Verif_C31_leaf: one property of any kind.
//
// Bounds: a property name of two characters (a letter, then a letter, digit or underscore); every leaf kind, directly or
// as the items of an array; null absent, first or last; required or not; every combination of the options Pointers,
// NoNestedStructs and DescriptionAsStructTag.
func Verif_C31_leaf() {
	o := vChooseOpts()
	p := &vProp{name: vName("name", 1), kind: vLeaves[sym.Choose("kind", len(vLeaves))], null: sym.Choose("null", 3), req: sym.Bool("req")}
	if sym.Choose("array", 2) == 1 {
		p = &vProp{name: p.name, kind: "array", null: p.null, req: p.req, items: &vProp{kind: p.kind}}
	}
	vBuildGo([]*vProp{p}, o)
	sym.Reach("a field")
}

// Verif_C31_nested: objects and arrays of objects in each other.
//
// Bounds: a property of three levels (objects, arrays of objects, arrays of numbers or times; in the innermost level a
// string, a time or an object without properties), each level with a property of the same name as its parent and maybe an
// integer beside it; null in objects; required or not on every level; the options Pointers and NoNestedStructs.
func Verif_C31_nested() {
	c := sym.Choose("options", 4)
	o := &vOpts{pointers: c&1 != 0, flat: c&2 != 0}
	vBuildGo([]*vProp{vTree("a", 2)}, o)
	sym.Reach("a tree")
}

// Verif_C31_wide: several properties beside each other.
//
// Bounds: three properties with different names of two characters, the first character of each any of a, b, c in any order
// of the schema, the second a letter, digit or underscore; each of a kind of its own (a leaf, an array, an object);
// required or not; the options Pointers and NoNestedStructs.
func Verif_C31_wide() {
	c := sym.Choose("options", 4)
	o := &vOpts{pointers: c&1 != 0, flat: c&2 != 0}
	perm := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choose("order", 6)]
	kinds := []*vProp{
		{kind: "date"},
		{kind: "array", items: &vProp{kind: "boolean"}},
		{kind: "object", props: []*vProp{{name: "ba", kind: "string", req: true}, {name: "ca", kind: "date"}}},
	}
	var ps []*vProp
	for i, k := range perm {
		p := kinds[k]
		r := sym.StrN("name", 1, '0', 'z')
		sym.Assume(sym.Or(r[0] <= '9', sym.And(r[0] >= 'A', r[0] <= 'Z'), r[0] == '_', r[0] >= 'a'))
		p.name = string([]byte{byte('a' + i)}) + r
		p.req = sym.Bool("req")
		ps = append(ps, p)
	}
	vBuildGo(ps, o)
	sym.Reach("three properties")
}

// Verif_C31_required: a field is required exactly if the list of required names has the name of its property.
//
// Bounds: a text, a date-time, an object or a list with a name of one letter, in the root, an object or the items of a list; another required
// name of one letter or digit, in the same list or in the one of another level; the field renamed to that letter or not; options Pointers, NoNestedStructs.
func Verif_C31_required() {
	name, other := vName("name", 0), sym.StrN("other", 1, '0', 'z')
	sym.Assume(sym.Or(other[0] <= '9', sym.And(other[0] >= 'A', other[0] <= 'Z'), other[0] >= 'a'))
	sym.Assume(name != other)
	p := &vProp{name: name, req: sym.Choose("req", 2) == 1}
	switch sym.Choose("kind", 4) {
	case 0:
		p.kind = "string"
	case 1:
		p.kind = "date"
	case 2:
		p.kind, p.props = "object", []*vProp{{name: "x", kind: "string"}}
	case 3:
		p.kind, p.items = "array", &vProp{kind: "integer"}
	}
	o := &vOpts{pointers: sym.Choose("pointers", 2) == 1, flat: sym.Choose("flat", 2) == 1}
	if sym.Choose("renamed", 2) == 1 {
		o.rename = map[string]string{name: other}
		sym.Assume(other[0] > '9')
	}
	ps := []*vProp{p}
	place := sym.Choose("place", 3)
	sym.Assume(sym.Or(place == 0, o.rename == nil, sym.And(name != "x", name != "w", other != "w", other != "x", other != "W")))
	switch place {
	case 1:
		ps = []*vProp{{name: "w", kind: "object", props: ps}}
	case 2:
		ps = []*vProp{{name: "w", kind: "array", items: &vProp{kind: "object", props: ps}}}
	}
	if sym.Choose("level", 2) == 1 && place > 0 {
		sym.Assume(other != "w")
		ps[0].reqToo = other
	} else {
		p.reqToo = other
	}
	vBuildGo(ps, o)
	sym.Reach("a field")
}

// Verif_C31_namesakes: objects at different places never share a struct.
//
// Bounds: two objects, one in an object of another name, with every split of three letters into the names; the option
// NoNestedStructs.
func Verif_C31_namesakes() {
	o := &vOpts{flat: true}
	leaf := func(n string) []*vProp { return []*vProp{{name: n, kind: "string"}} }
	names := []string{"a", "ab", "aB", "abc", "aBC", "aBc"}
	n1, n2, n3 := names[sym.Choose("n1", len(names))], names[sym.Choose("n2", len(names))], []string{"b", "bc", "bC", "c"}[sym.Choose("n3", 4)]
	sym.Assume(n1 != n2)
	ps := []*vProp{
		{name: n1, kind: "object", props: leaf("x")},
		{name: n2, kind: "object", props: []*vProp{{name: n3, kind: "object", props: leaf("y")}}},
	}
	if vTitle(n1) == vTitle(n2)+vTitle(n3) {
		d := vDir()
		vWrite(d+"/thing.json", vObject(ps))
		err := BuildStructsWithArgs(BuildArgs{SchemaPath: d + "/thing.json", OutputDir: d + "/pkg", NoNestedStructs: true})
		if err == nil {
			g := vParse(vRead(d + "/pkg/thing.go"))
			sym.Finding("same-struct-name", len(g.structs) == 4, "two objects at different places share one struct (NoNestedStructs)")
		}
		return
	}
	vBuildGo(ps, o)
	sym.Reach("two objects")
}

// Verif_C31_format: only a string of the format date-time is a time.
//
// Bounds: one property of every leaf kind or an object, directly or as the items of an array, with any format of 9
// characters (a letter of either case or a dash) or one of date, time and email; null absent, first or last; required or not; options
// Pointers, NoNestedStructs.
func Verif_C31_format() {
	c := sym.Choose("options", 4)
	o := &vOpts{pointers: c&1 != 0, flat: c&2 != 0}
	vBuildGo([]*vProp{vFormatted()}, o)
	sym.Reach("a field")
}

// Verif_C31_union: a property that may be of two types, null aside, is refused.
//
// Bounds: every two different types of boolean, number, integer, string and array, in either order, with null before,
// between or after them or not at all; in the root, an object or the items of a list; options Pointers, NoNestedStructs.
func Verif_C31_union() {
	all := []string{"boolean", "number", "integer", "string", "array"}
	a, b := all[sym.Choose("one", len(all))], all[sym.Choose("other", len(all))]
	sym.Assume(a != b)
	ts := []string{`"` + a + `"`, `"` + b + `"`}
	if n := sym.Choose("null", 4); n < 3 {
		ts = append(ts[:n:n], append([]string{`"null"`}, ts[n:]...)...)
	}
	text := `{"type":"object","properties":{"a":{"type":[` + strings.Join(ts, ",") + `],"items":{"type":"string"}}}}`
	switch sym.Choose("place", 3) {
	case 1:
		text = `{"type":"object","properties":{"w":` + text + `}}`
	case 2:
		text = `{"type":"object","properties":{"w":{"type":"array","items":` + text + `}}}`
	}
	d := vDir()
	vWrite(d+"/thing.json", text)
	err := BuildStructsWithArgs(BuildArgs{SchemaPath: d + "/thing.json", OutputDir: d + "/pkg", Pointers: sym.Choose("Pointers", 2) == 1, NoNestedStructs: sym.Choose("NoNestedStructs", 2) == 1})
	sym.Assert(err != nil, "a property that may be of two types becomes a field of one of them")
	sym.Reach("refused")
}

// Verif_C31_empty: an object without properties, or none but ones that are resolved elsewhere, has a struct without fields.
//
// Bounds: a schema without properties or with one or two that are resolved elsewhere; every combination of the options
// Pointers, NoNestedStructs and DescriptionAsStructTag.
func Verif_C31_empty() {
	o := vChooseOpts()
	var ps []*vProp
	for _, n := range []string{"a", "b"}[:sym.Choose("properties", 3)] {
		ps = append(ps, &vProp{name: n, kind: "hydration", target: "Other", req: sym.Bool("req")})
	}
	vBuildGo(ps, o)
	sym.Reach("a struct")
}
