package generate

import (
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vTwo generates the files of a schema with one order of all maps and again with other ones.
func vTwo(d string, args BuildArgs, mode int) (string, string) {
	gen := func() string {
		args.OutputDir = d + "/pkg"
		if err := BuildStructsWithArgs(args); err != nil {
			return "error"
		}
		s := ""
		for _, f := range strings.Split(vFiles(d+"/pkg"), " ") {
			s += "== " + f + "\n" + vRead(d+"/pkg/"+f)
		}
		return s
	}
	first := gen()
	sym.MapOrder(mode, 3)
	second := gen()
	sym.MapOrder(0, 0)
	return first, second
}

// vTwice is vTwo for an object with the properties.
func vTwice(ps []*vProp, args BuildArgs, mode int) (string, string) {
	d := vDir()
	vWrite(d+"/thing.json", vObject(ps))
	args.SchemaPath = d + "/thing.json"
	return vTwo(d, args, mode)
}

// Verif_C32_names: properties whose names only differ in ways that generated names do not show.
//
// Bounds: three properties, names among foo, Foo, bar, Bar, items, totalItems, fooBar, foobar; a text and an array, an array and
// an object, two objects, or an array and a time; bar renamed to foo or not; in the second run every loop goes
// through its map in the order of the first or in reverse, independently of the others (thorough: maps of up to three entries
// in every order); options NoNestedStructs, GenerateGraphQL.
func Verif_C32_names() {
	sets := [][]string{{"foo", "Foo", "bar"}, {"foo", "bar", "Bar"}, {"items", "totalItems", "bar"}, {"foo", "fooBar", "bar"}, {"fooBar", "foobar", "bar"}}
	si := sym.Choose("names", len(sets))
	names := sets[si]
	kinds := [][]string{{"string", "array"}, {"array", "object"}, {"object", "object"}, {"array", "date"}, {"array", "string"}, {"array", "array"}}[sym.Choose("kinds", 6)]
	var ps []*vProp
	for i, n := range names {
		p := &vProp{name: n, kind: "integer"}
		if i < 2 {
			p.kind = kinds[i]
		}
		p.req = i == 1
		switch p.kind {
		case "array":
			p.items = &vProp{kind: "string"}
		case "object":
			p.props = []*vProp{{name: "bar", kind: "string"}}
		}
		ps = append(ps, p)
	}
	var rename map[string]string
	if sym.Choose("rename", 2) == 1 {
		rename = map[string]string{"bar": "foo"}
	}
	flat := sym.Choose("flat", 2) == 1
	args := BuildArgs{NoNestedStructs: flat, GenerateGraphQL: flat, FieldNameMap: rename, ImportPath: "imp/pkg", EmbedAllOf: true}
	mode := 3
	if sym.Tier() == 1 {
		mode = 1
	}
	if flat && kinds[0] == "array" && kinds[1] == "array" && (si == 0 || si == 1 && rename != nil) {
		// the lists have the same name for their length
		first, second := vTwice(ps, args, mode)
		sym.Finding("same-total", first == second, "two arrays whose names differ in the case of the first letter, or by renaming, get one total field whose description depends on map order")
		return
	}
	first, second := vTwice(ps, args, mode)
	sym.Assert(first == second, "two runs on one schema generate different files")
	sym.Reach("the same files")
}

// Verif_C32_branches: several shared schemas and branches.
//
// Bounds: a schema with two shared schemas (allOf) and two branches (oneOf), each with an object, an array or a leaf; the
// properties of a branch may replace shared ones; options EmbedAllOf, NoNestedStructs, GenerateGraphQL; in the second run every map
// is gone through in the order of the first or in reverse, all at once (thorough: independently at every loop).
func Verif_C32_branches() {
	d := vDir()
	shared := [][]*vProp{
		{{name: "a", kind: "string", desc: "one"}, {name: "o", kind: "object", props: []*vProp{{name: "x", kind: "date"}}}},
		{{name: "b", kind: "array", items: &vProp{kind: "string"}}, {name: "a", kind: "integer", desc: "two"}},
	}
	own := [][]*vProp{{{name: "c", kind: "string"}}, {{name: "b", kind: "string", desc: "three"}, {name: "o", kind: "integer", desc: "four"}}}
	vWrite(d+"/s1.json", vObject(shared[0]))
	vWrite(d+"/s2.json", vObject(shared[1]))
	vWrite(d+"/one.json", vObject(own[0]))
	vWrite(d+"/two.json", vObject(own[1]))
	vWrite(d+"/thing.json", `{"type":"object","allOf":[{"$ref":"s1.json"},{"$ref":"s2.json"}],"oneOf":[{"$ref":"one.json"},{"$ref":"two.json"}]}`)
	flat := sym.Choose("flat", 2) == 1
	first, second := vTwo(d, BuildArgs{SchemaPath: d + "/thing.json", NoNestedStructs: flat, GenerateGraphQL: flat, ImportPath: "imp/pkg", EmbedAllOf: sym.Choose("embed", 2) == 1}, 2+sym.Tier())
	sym.Assert(first == second, "two runs on one schema with branches generate different files")
	sym.Assert(first != "error", "no files are generated for a proper schema with branches")
	sym.Reach("the same files")
}
