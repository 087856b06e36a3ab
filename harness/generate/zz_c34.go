package generate

import "github.com/GannettDigital/jstransform/zzverif/sym"

// Verif_C34_leaf: one property of any kind.
//
// Bounds: a property name of two characters (a letter, then a letter, digit or underscore); every leaf kind, directly or
// as the items of an array, with or without an overridden GraphQL type; a field resolved elsewhere, with or without
// arguments, directly or as the items; null absent, first or last, items with null or not; required or not; option Pointers on or off, always
// NoNestedStructs.
func Verif_C34_leaf() {
	o := &vGqlOpts{pointers: sym.Choose("pointers", 2) == 1}
	kinds := append([]string{"hydration"}, vLeaves...)
	p := &vProp{name: vName("name", 1), kind: kinds[sym.Choose("kind", len(kinds))], null: sym.Choose("null", 3), req: sym.Bool("req")}
	array := sym.Choose("array", 2) == 1
	if p.kind == "hydration" {
		if !array {
			p.null = 0
		}
		p.target = "Other"
		if sym.Choose("args", 2) == 1 {
			p.args = []string{"first: Int!", "after: String"}
		}
	} else if p.kind != "map" && sym.Choose("target", 2) == 1 {
		p.target = "Other"
	}
	if array {
		it := &vProp{kind: p.kind, target: p.target}
		if p.kind != "hydration" {
			it.null = sym.Choose("null items", 2)
		}
		p = &vProp{name: p.name, kind: "array", null: p.null, req: p.req, args: p.args, items: it}
	}
	vBuildGql([]*vProp{p}, o)
	sym.Reach("a field")
}

// Verif_C34_total: a property named like the field for the length of a list is that field.
//
// Bounds: a list, before or after a property of any kind (objects, or lists of texts or objects, too) that is named like the
// field for the length of the list; that property with or without an overridden type, required or not, with null or not; another
// list with such a property or not; in the schema itself or in an object; option Pointers on or off, always NoNestedStructs.
func Verif_C34_total() {
	o := &vGqlOpts{pointers: sym.Choose("pointers", 2) == 1}
	list := &vProp{name: []string{"a", "x"}[sym.Choose("list", 2)], kind: "array", items: &vProp{kind: "string"}}
	t := &vProp{kind: []string{"string", "date", "map", "object", "list", "objects"}[sym.Choose("kind", 6)]}
	if t.kind != "map" && t.kind != "list" && t.kind != "objects" && sym.Choose("target", 2) == 1 {
		t.target = "Other"
	}
	if t.kind == "object" || t.kind == "objects" {
		t.props = []*vProp{{name: "s", kind: "string"}}
	}
	switch t.kind {
	case "list":
		t = &vProp{kind: "array", items: &vProp{kind: "string"}}
	case "objects":
		t = &vProp{kind: "array", items: &vProp{kind: "object", props: t.props}}
	}
	t.name, t.req, t.null = "total"+vTitle(list.name), sym.Bool("req"), sym.Choose("null", 2)
	ps := []*vProp{list, t}
	if sym.Choose("another list", 2) == 1 {
		ps = []*vProp{list, {name: "k", kind: "array", items: &vProp{kind: "integer"}}, t, {name: "totalK", kind: "integer", req: sym.Bool("k")}}
	}
	if sym.Choose("inner", 2) == 1 {
		ps = []*vProp{{name: "o", kind: "object", req: true, props: ps}}
	}
	vBuildGql(ps, o)
	sym.Reach("a total")
}

// Verif_C34_nested: objects and arrays of objects in each other.
//
// Bounds: a property of three levels (objects, arrays of objects, arrays of numbers or times; in the innermost level a
// string, a time or an object without properties), each level with a property of the same name as its parent and maybe an
// integer beside it; null in objects; required or not on every level; option Pointers on or off, always NoNestedStructs.
func Verif_C34_nested() {
	o := &vGqlOpts{pointers: sym.Choose("pointers", 2) == 1}
	vBuildGql([]*vProp{vTree("a", 2)}, o)
	sym.Reach("a tree")
}

// vNodes are a property and all the properties in it.
func vNodes(p *vProp) []*vProp {
	ns := []*vProp{p}
	if p.items != nil {
		ns = append(ns, vNodes(p.items)...)
	}
	for _, q := range p.props {
		ns = append(ns, vNodes(q)...)
	}
	return ns
}

// Verif_C34_overridden: objects in an object the type of which is overridden declare no types.
//
// Bounds: a property of three levels as in nested, next to an object that may be of the same shape; the type of one object,
// or of the items of one array, of it overridden; option Pointers on or off, always NoNestedStructs.
func Verif_C34_overridden() {
	o := &vGqlOpts{pointers: sym.Choose("pointers", 2) == 1}
	p := vTree("a", 2+sym.Tier())
	var ns []*vProp
	for _, n := range vNodes(p) {
		if n.kind == "object" {
			ns = append(ns, n)
		}
	}
	if len(ns) == 0 {
		sym.Skip()
	}
	ns[sym.Choose("overridden", len(ns))].target = "Other"
	vBuildGql([]*vProp{p, {name: "z", kind: "object", props: []*vProp{{name: "a", kind: "object", props: []*vProp{{name: "b", kind: "string"}}}}}}, o)
	sym.Reach("a tree")
}

// Verif_C34_deep: as overridden, with objects in objects up to four levels deep.
//
// Bounds: a chain of four objects or arrays of objects, each with an integer beside the next one, the innermost with a
// string; the types of any of them overridden; option Pointers on or off, always NoNestedStructs.
func Verif_C34_deep() {
	o := &vGqlOpts{pointers: sym.Choose("pointers", 2) == 1}
	p := &vProp{name: "s", kind: "string"}
	for i := 0; i < 4; i++ {
		obj := &vProp{name: "a", kind: "object", props: []*vProp{{name: "n", kind: "integer"}, p}}
		if sym.Choose("overridden", 2) == 1 {
			obj.target = "Other"
		}
		p = obj
		if sym.Choose("array", 2) == 1 {
			p = &vProp{name: "a", kind: "array", items: obj}
			obj.name = ""
		}
	}
	vBuildGql([]*vProp{p}, o)
	sym.Reach("a chain")
}

// Verif_C34_format: only a string of the format date-time is a DateTime.
//
// Bounds: one property of every leaf kind or an object, directly or as the items of an array, with any format of 9
// characters (a letter of either case or a dash) or one of date, time and email; null absent, first or last; required or not; option
// Pointers on or off, always NoNestedStructs.
func Verif_C34_format() {
	vBuildGql([]*vProp{vFormatted()}, &vGqlOpts{pointers: sym.Choose("pointers", 2) == 1})
	sym.Reach("a field")
}
