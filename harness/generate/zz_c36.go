package generate

import "github.com/GannettDigital/jstransform/zzverif/sym"

// vDesc is a description of n characters: printable ASCII, tabs and newlines.
func vDesc(n int) string {
	s := sym.StrN("desc", n, '\t', '~')
	for i := 0; i < n; i++ {
		sym.Assume(sym.Or(s[i] <= '\n', s[i] >= ' '))
	}
	return s
}

// vDescR is like vDesc, with carriage returns.
func vDescR(n int) string {
	s := sym.StrN("desc", n, '\t', '~')
	for i := 0; i < n; i++ {
		sym.Assume(sym.Or(s[i] <= '\n', sym.Or(s[i] == '\r', s[i] >= ' ')))
	}
	return s
}

// Verif_C36_go: the description of a property reaches the Go code, whatever characters it has.
//
// Bounds: a description of three (thorough: five) arbitrary printable ASCII characters, tabs or newlines between two
// letters; as a tag or as a comment. Blanks at the end of a line of a comment are not looked at, as the formatter removes
// them.
func Verif_C36_go() {
	o := &vOpts{tag: sym.Choose("tag", 2) == 1}
	n := 3 + 2*sym.Tier()
	p := &vProp{name: "x", kind: "string", desc: "d" + vDesc(n) + "e"}
	vBuildGo([]*vProp{p}, o)
	sym.Reach("a description")
}

// Verif_C36_graphql: the description of a property reaches the GraphQL file, whatever characters it has.
//
// Bounds: a description of three (thorough: five) arbitrary printable ASCII characters, tabs, newlines or carriage returns
// before a letter, of a text, an array or an object; deprecated or not (the characters then in the reason of a text or an array, of an array one
// less, or in the rest of that of a text).
func Verif_C36_graphql() {
	n := 3 + 2*sym.Tier()
	kinds := []string{"string", "array", "object"}
	dep := sym.Choose("deprecated", 3)
	p := &vProp{name: "x", kind: kinds[sym.Choose("kind", len(kinds)-dep)]}
	switch p.kind {
	case "array":
		p.items = &vProp{kind: "string"}
		n -= min(dep, 1)
	case "object":
		p.props = []*vProp{{name: "y", kind: "string"}}
	}
	p.desc = []string{"d", "DEPRECATED:", "DEPRECATED: r\nd"}[dep] + vDescR(n) + "e"
	vBuildGql([]*vProp{p}, &vGqlOpts{})
	sym.Reach("a description")
}

// Verif_C36_avro: the first line of the description of a property reaches the Avro schema, whatever characters it has.
//
// Bounds: a description of three (thorough: five) arbitrary printable ASCII characters, tabs or newlines between two
// letters, as the tag of a text or an array.
func Verif_C36_avro() {
	p := &vProp{name: "x", kind: []string{"string", "array"}[sym.Choose("kind", 2)], desc: "d" + vDesc(3+2*sym.Tier()) + "e"}
	if p.kind == "array" {
		p.items = &vProp{kind: "string"}
	}
	vBuildAvro([]*vProp{p}, &vOpts{tag: true}, false)
	sym.Reach("a description")
}

// Verif_C36_quotes: runs of quotes in a description do not end it.
//
// Bounds: the second line of a description having two runs of three quotes with an arbitrary printable ASCII character, tab
// or newline before, between and after them; of a text or an object, in the GraphQL file or in the Go code.
func Verif_C36_quotes() {
	p := &vProp{name: "x", kind: "string"}
	if sym.Choose("kind", 2) == 1 {
		p.kind, p.props = "object", []*vProp{{name: "y", kind: "string"}}
	}
	c := vDesc(3)
	p.desc = "d\n" + c[:1] + `"""` + c[1:2] + `"""` + c[2:] + "e"
	if sym.Choose("file", 2) == 0 {
		vBuildGql([]*vProp{p}, &vGqlOpts{})
	} else {
		vBuildGo([]*vProp{p}, &vOpts{})
	}
	sym.Reach("quotes")
}

// Verif_C36_types: the descriptions of objects reach their GraphQL types, those of deprecated ones, too.
//
// Bounds: an object, the items of an array, or the object that has them, with a description that begins with "DEPRECATED:"
// or not, in one line or two, with two arbitrary printable ASCII characters, tabs, newlines or carriage returns in it.
func Verif_C36_types() {
	in := &vProp{kind: "object", props: []*vProp{{name: "y", kind: "string"}}}
	ps := []*vProp{{name: "x", kind: "array", items: in}}
	switch sym.Choose("place", 3) {
	case 1:
		in.name = "x"
		ps = []*vProp{in}
	case 2:
		in.name = "x"
		in.props = []*vProp{{name: "z", kind: "array", items: &vProp{kind: "object", props: in.props}}}
		ps = []*vProp{in}
	}
	in.desc = []string{"d", "DEPRECATED: r", "DEPRECATED: r\nd", "DEPRECATED:"}[sym.Choose("text", 4)] + vDescR(2) + "e"
	vBuildGql(ps, &vGqlOpts{})
	sym.Reach("a description")
}
