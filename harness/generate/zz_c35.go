package generate

import (
	"sort"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

func vRenamable() []*vProp {
	return []*vProp{
		{name: "x", kind: "string", req: true},
		{name: "l", kind: "array", items: &vProp{kind: "string"}},
		{name: "o", kind: "object", props: []*vProp{{name: "x", kind: "date"}, {name: "p", kind: "object", props: []*vProp{{name: "y", kind: "string"}, {name: "z", kind: "object", props: []*vProp{{name: "v", kind: "string"}}}}}}},
		{name: "la", kind: "array", items: &vProp{kind: "object", props: []*vProp{{name: "y", kind: "string"}}}},
	}
}

// Verif_C35_go: other names for fields and structs change nothing but these names.
//
// Bounds: a schema with texts, an array, three objects in each other and an array of objects; any two of its names renamed to
// names of three characters, the last any letter, digit or underscore; the struct renamed or not; options
// NoNestedStructs, Pointers.
func Verif_C35_go() {
	o := &vOpts{flat: sym.Choose("flat", 2) == 1, pointers: sym.Choose("pointers", 2) == 1, rename: map[string]string{}}
	olds := []string{"x", "l", "o", "p", "la", "y"}
	for i, t := range []string{"n0", "n1"} {
		k := sym.Choose("old", len(olds)+1)
		if k == len(olds) {
			continue
		}
		new := vName(t, 0) + "q" + string([]byte{byte('0' + i)})
		o.rename[olds[k]] = new
	}
	if sym.Choose("struct", 2) == 1 {
		o.typeName = "Renamed"
	}
	vBuildGo(vRenamable(), o)
	sym.Reach("renamed")
}

// Verif_C35_graphql: other names for fields, structs and GraphQL types change nothing but these names.
//
// Bounds: as above; the GraphQL types of the root and of one of the objects in each other, or of two of these, renamed or not; always NoNestedStructs.
func Verif_C35_graphql() {
	o := &vGqlOpts{pointers: sym.Choose("pointers", 2) == 1, fields: map[string]string{}, types: map[string]string{}}
	olds := []string{"x", "l", "o", "p", "la", "y"}
	if k := sym.Choose("old", len(olds)+1); k < len(olds) {
		o.fields[olds[k]] = vName("n", 0) + "q0"
	}
	if sym.Choose("struct", 2) == 1 {
		o.typeName = "Renamed"
	}
	root := "Thing"
	if o.typeName != "" {
		root = o.typeName
	}
	if sym.Choose("root", 2) == 1 {
		o.types["thing"] = "Root"
		root = "Root"
	}
	switch sym.Choose("type", 5) {
	case 1:
		o.types[root+"O"] = "Other"
	case 2:
		o.types[root+"OP"] = "Other"
	case 3:
		o.types[root+"OPZ"] = "Other"
	case 4:
		o.types[root+"O"], o.types["OtherPZ"] = "Other", "Another"
	}
	vBuildGql(vRenamable(), o)
	sym.Reach("renamed")
}

// Verif_C35_parts: names given to the structs of shared schemas and branches and to their fields change only these names in all files.
//
// Bounds: a root schema of two shared schemas (one with a version in its file name), or one and a property of its own, and two branches,
// the first of which shares a schema of its own; any one or two of the five structs renamed, and one of three properties
// (thorough: any) or none, to a name with a symbolic letter (quick: with one struct); options EmbedAllOf,
// NoNestedStructs, GraphQL in one or several files.
func Verif_C35_parts() {
	base := &vPart{file: "base", ext: ".json", props: []*vProp{{name: "b0", kind: "integer"}, {name: "ob", kind: "object", props: []*vProp{{name: "t0", kind: "string"}}}}}
	common := &vPart{file: "common", ext: ".v1.json", props: []*vProp{{name: "c0", kind: "number", req: true}}}
	mid := &vPart{file: "mid", ext: ".json", props: []*vProp{{name: "m0", kind: "boolean"}}}
	thing := &vPart{file: "thing", ext: ".json", props: []*vProp{{name: "t0", kind: "string"}, {name: "l", kind: "array", items: &vProp{kind: "object", props: []*vProp{{name: "b0", kind: "date"}}}}}, all: []*vPart{mid}}
	other := &vPart{file: "other", ext: ".json", props: []*vProp{{name: "o0", kind: "string", req: true}}}
	root := &vPart{file: "asset", ext: ".json", all: []*vPart{base, common}, one: []*vPart{thing, other}}
	if sym.Choose("own", 2) == 1 {
		root.all, root.props = []*vPart{base}, []*vProp{{name: "r0", kind: "string"}}
	}
	args := BuildArgs{EmbedAllOf: sym.Choose("embed", 2) == 1, NoNestedStructs: true, GenerateGraphQL: true, ImportPath: "imp/pkg", InterfaceFiles: sym.Choose("files", 2) == 1}
	if !args.InterfaceFiles {
		args.NoNestedStructs = sym.Choose("flat", 2) == 1
		args.GenerateGraphQL = args.NoNestedStructs
	}
	ps := []*vPart{base, thing, mid, other, common}
	if len(root.props) > 0 {
		ps[4] = root
	}
	d := vDir()
	args.OutputDir = d + "/pkg"
	vBuildComposite(d, root, args)
	x, y := sym.Choose("first", len(ps)), sym.Choose("second", len(ps))
	field := []string{"", "b0", "t0", "l", "ob", "m0", "c0"}[sym.Choose("field", 4+3*sym.Tier())]
	if x > y || sym.Tier() == 0 && x < y && field != "" {
		sym.Skip()
	}
	ps[x].rename, ps[y].rename = "RenamedX", "RenamedY"
	args.StructNameMap = nil
	new := ""
	if field != "" {
		new = sym.StrN("new", 1, 'a', 'z') + "Qq"
		args.FieldNameMap = map[string]string{field: new}
	}
	d2 := vDir()
	args.OutputDir = d2 + "/pkg"
	vBuildComposite(d2, root, args)
	sym.Assert(vFiles(d+"/pkg") == vFiles(d2+"/pkg"), "other names for structs and fields change the files that are generated")
	back := []string{"RenamedY", vTitle(ps[y].file), "RenamedX", vTitle(ps[x].file)}
	if field != "" {
		back = append(back, vTitle(new), vTitle(field), new, field)
	}
	for _, f := range strings.Split(vFiles(d+"/pkg"), " ") {
		if f != "" {
			text, old := vRead(d2+"/pkg/"+f), vRead(d+"/pkg/"+f)
			for _, p := range ps {
				if strings.HasSuffix(f, ".go") && p.rename != "" && strings.Contains(old, "type "+vTitle(p.file)+" struct") {
					sym.Assert(strings.Contains(text, "type "+p.rename+" struct"), "a struct does not have the name that is given to it")
				}
			}
			if strings.HasSuffix(f, ".go") && field != "" {
				sym.Assert(strings.Count(vLines(text), "\n"+vTitle(new)+" ") == strings.Count(vLines(old), "\n"+vTitle(field)+" "), "a field does not have the name that is given to it")
			}
			for i := 0; i < len(back); i += 2 {
				text = strings.ReplaceAll(text, back[i], back[i+1])
			}
			sym.Assert(vLines(text) == vLines(old), "other names for structs and fields change something else")
		}
	}
	sym.Reach("renamed")
}

// vLines are the lines of a text in alphabetical order (fields are ordered by their new names), without blank ones and the blanks that align
// columns.
func vLines(s string) string {
	var ls []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.Join(strings.Fields(l), " "); l != "" {
			ls = append(ls, l)
		}
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}
