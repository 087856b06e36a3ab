package generate

import (
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// Verif_C38_go: the structs of shared schemas and branches. A branch has its own properties, those of the schemas it
// shares and those of the root schema, each exactly once as encoding/json counts embedded fields; its own replace others.
//
// Bounds: a root schema with or without properties, with 0 to 2 shared schemas (the second, as root, second branch and the shared schema of a branch, with a version in its file name), 0 to
// 2 branches, the first of which may share a schema of its own; each schema with a property of its own, and root, first
// shared schema, first branch and its shared schema each with another of any name of a small letter; option EmbedAllOf on
// and off.
func Verif_C38_go() {
	d := vDir()
	root := vComposite(true)
	embed := sym.Choose("embed", 2) == 1
	vBuildComposite(d, root, BuildArgs{OutputDir: d + "/pkg", EmbedAllOf: embed})
	vCheckComposite(vPackage(d+"/pkg"), root, embed)
	sym.Reach("a package")
}

// Verif_C38_empty: shared schemas and branches without properties of their own have structs like the others.
//
// Bounds: a root schema with or without a property, 0 to 2 shared schemas, one or two branches, the first of which may
// share a schema of its own; any of these without properties, which are missing or an empty object; options EmbedAllOf and
// NoNestedStructs.
func Verif_C38_empty() {
	d := vDir()
	empty := sym.Choose("empty object", 2) == 1
	part := func(file, kind string) *vPart {
		p := &vPart{file: file, ext: ".json", empty: empty}
		if sym.Choose("properties of "+file, 2) == 1 {
			p.props = []*vProp{{name: file + "x", kind: kind}}
		}
		return p
	}
	root := &vPart{file: "asset", ext: ".json"}
	if sym.Choose("properties", 2) == 1 {
		root.props = []*vProp{{name: "r0", kind: "date", req: true}}
	}
	if n := sym.Choose("shared", 3); n > 0 {
		root.all = append(root.all, part("base", "integer"))
		if n > 1 {
			root.all = append(root.all, part("common", "number"))
		}
	}
	root.one = []*vPart{part("thing", "string")}
	if sym.Choose("branch shares", 2) == 1 {
		root.one[0].all = []*vPart{part("mid", "boolean")}
	}
	if sym.Choose("branches", 2) == 1 {
		root.one = append(root.one, part("other", "string"))
	}
	embed := sym.Choose("embed", 2) == 1
	vBuildComposite(d, root, BuildArgs{OutputDir: d + "/pkg", EmbedAllOf: embed, NoNestedStructs: sym.Choose("flat", 2) == 1})
	vCheckComposite(vPackage(d+"/pkg"), root, embed)
	sym.Reach("a package")
}

// Verif_C38_rename: renamed structs of shared schemas and branches are embedded under their new names.
//
// Bounds: as above without equal names; any one of the structs renamed; options EmbedAllOf, NoNestedStructs.
func Verif_C38_rename() {
	d := vDir()
	root := vComposite(false)
	var ps []*vPart
	ps = append(ps, root)
	ps = append(append(ps, root.all...), root.one...)
	if len(root.one) > 0 {
		ps = append(ps, root.one[0].all...)
	}
	ps[sym.Choose("renamed", len(ps))].rename = "Renamed"
	embed := sym.Choose("embed", 2) == 1
	vBuildComposite(d, root, BuildArgs{OutputDir: d + "/pkg", EmbedAllOf: embed, NoNestedStructs: sym.Choose("flat", 2) == 1})
	vCheckComposite(vPackage(d+"/pkg"), root, embed)
	sym.Reach("a package")
}

// Verif_C38_many: any number of shared schemas and branches.
//
// Bounds: 3 or 4 (thorough: 0 to 4) shared schemas, 1 or 3 (thorough: 1 to 3) branches, of which the first and the last (thorough: each) share
// 0 to 3 schemas of their own, which branches may have in common; each schema with one property, the names of two of them any letters; option
// EmbedAllOf on and off.
func Verif_C38_many() {
	d := vDir()
	few := func(quick, thorough []int, name string) int {
		if sym.Tier() > 0 {
			quick = thorough
		}
		return quick[sym.Choose(name, len(quick))]
	}
	part := func(file string) *vPart {
		return &vPart{file: file, ext: ".json", props: []*vProp{{name: file + "x", kind: "string", req: true}}}
	}
	root := &vPart{file: "asset", ext: ".json"}
	for i, name := range []string{"sa", "sb", "sc", "sd"}[:few([]int{3, 4}, []int{0, 1, 2, 3, 4}, "shared")] {
		p := part(name)
		if i == 2 {
			p.props[0].name = vLower("third")
		}
		root.all = append(root.all, p)
	}
	mids := []*vPart{part("ma"), part("mb"), part("mc")}
	n := few([]int{1, 3}, []int{1, 2, 3}, "branches")
	for i, name := range []string{"ba", "bb", "bc"}[:n] {
		p := part(name)
		if i == 0 {
			p.props[0].name = vLower("first")
		}
		if sym.Tier() > 0 || i == 0 || i == n-1 {
			from := sym.Choose("from", 2)
			p.all = mids[from : sym.Choose("to", 4-from)+from]
		}
		root.one = append(root.one, p)
	}
	embed := sym.Choose("embed", 2) == 1
	vBuildComposite(d, root, BuildArgs{OutputDir: d + "/pkg", EmbedAllOf: embed})
	vCheckComposite(vPackage(d+"/pkg"), root, embed)
	sym.Reach("a package")
}

// Verif_C38_graphql: shared schemas become an interface that the types of the branches implement, or the type of the schema
// if there are no branches. Each type repeats the fields of the shared schemas.
//
// Bounds: a root schema named as the package or not, without properties, 0 to 2 shared schemas (the first with an array and
// an object), 1 or 2 branches or none, the first of which has an object and may share a schema of its own, and may have
// the name of a shared property again (any names of a small letter); options EmbedAllOf, InterfaceFiles (file names with
// the name of the schema as prefix or not), ScalarAny, Pointers; the interface and a branch renamed or not, without branches
// the struct of the shared schema. (Quick: ScalarAny
// and Pointers together, and the prefix exactly if the root schema is named as the package.)
func Verif_C38_graphql() {
	d := vDir()
	args := BuildArgs{OutputDir: d + "/pkg", EmbedAllOf: sym.Choose("embed", 2) == 1, NoNestedStructs: true, GenerateGraphQL: true, ImportPath: "imp/pkg",
		InterfaceFiles: sym.Choose("files", 2) == 1, ScalarAny: sym.Choose("scalar", 2) == 1, GraphQLTypeNameMap: map[string]string{}}
	which := sym.Choose("root", 2)
	root, branch := &vPart{file: []string{"asset", "pkg"}[which], ext: ".json"}, which
	args.Pointers = args.ScalarAny
	if sym.Tier() > 0 {
		args.Pointers = sym.Choose("pointers", 2) == 1
		branch = sym.Choose("branch name", 2)
	}
	x, y := vLower("base"), vLower("thing")
	base := &vPart{file: "base", ext: ".json", props: []*vProp{{name: x, kind: "integer"}, {name: "list", kind: "array", items: &vProp{kind: "integer"}},
		{name: "links", kind: "object", props: []*vProp{{name: "u", kind: "string"}}}}}
	common := &vPart{file: "common", ext: ".v1.json", props: []*vProp{{name: "c0", kind: "number"}}}
	thing := &vPart{file: []string{"thing", "pkgThing"}[branch], ext: ".json", props: []*vProp{{name: y, kind: "string", req: true},
		{name: "to", kind: "object", req: true, props: []*vProp{{name: "v", kind: "date"}}}}}
	other := &vPart{file: "other", ext: ".v3.json", props: []*vProp{{name: "o0", kind: "boolean", req: true}}}
	mid := &vPart{file: "mid", ext: ".v2.json", props: []*vProp{{name: "m0", kind: "date"}}}
	switch sym.Choose("shared", 3) {
	case 1:
		root.all = []*vPart{base}
	case 2:
		root.all = []*vPart{base, common}
	}
	switch sym.Choose("branches", 3) {
	case 1:
		root.one = []*vPart{thing}
	case 2:
		root.one = []*vPart{thing, other}
	}
	if len(root.all)+len(root.one) == 0 {
		sym.Skip()
	}
	if len(root.one) > 0 && sym.Choose("branch shares", 2) == 1 {
		thing.all = []*vPart{mid}
	}
	iface := "Pkg"
	if sym.Choose("rename", 2) == 1 {
		if len(root.all) > 0 && len(root.one) > 0 {
			args.GraphQLTypeNameMap["pkg"] = "Iface"
			iface = "Iface"
		}
		args.GraphQLTypeNameMap[thing.file] = "Branch"
		if len(root.one) == 0 {
			base.rename = "Gorge"
		}
	}
	vCheckGql(d, root, args, iface)
	sym.Reach("a file")
}

// Verif_C38_override: a property of a branch replaces that of a shared schema in the type of the branch.
//
// Bounds: a root schema with one or two shared schemas and a branch, which may share a schema of its own; one property each,
// of any names of a small letter, and of different kinds; the type of any of them overridden; required or not, maybe by another
// shared schema; options EmbedAllOf, Pointers.
func Verif_C38_override() {
	d := vDir()
	args := BuildArgs{OutputDir: d + "/pkg", EmbedAllOf: sym.Choose("embed", 2) == 1, NoNestedStructs: true, GenerateGraphQL: true, ImportPath: "imp/pkg",
		Pointers: sym.Choose("pointers", 2) == 1}
	part := func(file, kind string, fixed string) *vPart {
		p := &vProp{name: fixed, kind: kind, req: sym.Bool("req " + file)}
		if fixed == "" {
			p.name = vLower(file)
		}
		return &vPart{file: file, ext: ".json", props: []*vProp{p}}
	}
	base, thing := part("base", "integer", ""), part("thing", "string", "")
	root := &vPart{file: "asset", ext: ".json", all: []*vPart{base}, one: []*vPart{thing}}
	all := []*vPart{base, thing}
	switch sym.Choose("more", 3) {
	case 1:
		all = append(all, part("common", "number", "c0"))
		root.all = append(root.all, all[2])
		if sym.Choose("required by another", 2) == 1 {
			base.props[0].reqToo = "c0"
		}
	case 2:
		all = append(all, part("mid", "boolean", ""))
		thing.all = all[2:]
	}
	if i := sym.Choose("overridden", 1+len(all)); i > 0 {
		all[i-1].props[0].target = "Other"
	}
	vCheckGql(d, root, args, "Pkg")
	sym.Reach("a file")
}

// vCheckGql generates and checks the GraphQL files of a schema with shared schemas and branches.
func vCheckGql(d string, root *vPart, args BuildArgs, iface string) {
	goName := func(p *vPart) string {
		if p.rename != "" {
			return p.rename
		}
		return vTitle(p.file)
	}
	vBuildComposite(d, root, args)
	types, scalars := vGql(vRead(d + "/pkg/" + root.file + ".graphqls"))
	want := ""
	if args.ScalarAny {
		want = "Any"
	}
	sym.Assert(scalars == want, "the scalar Any is declared exactly if it is asked for")
	files := map[string]bool{root.file + ".graphqls": true}
	if args.InterfaceFiles {
		for _, p := range root.one {
			f := p.file + ".graphqls"
			if !strings.HasPrefix(p.file, root.file) {
				f = root.file + "_" + f
			}
			files[f] = true
			ts, sc := vGql(vRead(d + "/pkg/" + f))
			sym.Assert(sc == "", "a scalar is declared in the file of a branch")
			sym.Assert(len(ts) > 0 && vGqlFind(types, ts[0].name) == nil, "the type of a branch is not in a file of its own")
			types = append(types, ts...)
		}
	}
	for _, f := range strings.Split(vFiles(d+"/pkg"), " ") {
		sym.Assert(strings.HasSuffix(f, ".go") || files[f], "a GraphQL file is generated that was not asked for")
	}
	used := map[string]bool{}
	o := &vGqlOpts{pointers: args.Pointers}
	check := func(t *vGqlType, own, shared []*vPart) {
		o.used = map[string]bool{}
		used[t.name] = true
		n := 0
		var before []*vProp
		for _, p := range append(own, shared...) {
			var ps []*vProp
			for _, q := range p.props {
				old := false
				for _, b := range before {
					old = old || b.name == q.name
				}
				if !old {
					// required if any of the schemas requires it
					r := *q
					for _, p := range append(own, shared...) {
						for _, o := range p.props {
							r.req = r.req || o.req && o.name == q.name || o.reqToo == q.name
						}
					}
					ps = append(ps, &r)
				}
			}
			before = append(before, ps...)
			gname := goName(p)
			if len(own) > 0 && p == own[0] {
				gname = vTitle(t.name)
			}
			n += vGqlSome(types, t, ps, o, gname, goName(p))
		}
		sym.Assert(n == len(t.fields), "a GraphQL type has a field that is neither its own nor a shared one")
		for u := range o.used {
			used[u] = true
		}
	}
	if len(root.all) > 0 {
		t := vGqlFind(types, iface)
		if t == nil {
			sym.Fail("the interface of the shared schemas is missing")
		}
		sym.Assert(t.impl == "", "the interface of the shared schemas implements another")
		if len(root.one) > 0 {
			sym.Assert(t.kind == "interface", "the shared schemas become no interface although there are branches")
		} else {
			sym.Assert(t.kind == "type", "the shared schemas become an interface although there are no branches")
			if len(root.all) == 1 {
				sym.Assert(t.model == "imp/pkg."+goName(root.all[0]), "the GraphQL type of a shared schema is not bound to its Go struct")
			}
		}
		check(t, nil, root.all)
	}
	for _, p := range root.one {
		name := vTitle(p.file)
		if len(root.all) > 0 {
			name = strings.ToLower(p.file)
		}
		if r, ok := args.GraphQLTypeNameMap[p.file]; ok {
			name = r
		}
		t := vGqlFind(types, name)
		if t == nil {
			sym.Fail("the GraphQL type of a branch is missing")
		}
		if len(root.all) > 0 {
			sym.Assert(t.impl == iface, "the type of a branch does not implement the interface of the shared schemas")
		} else {
			sym.Assert(t.impl == "", "the type of a branch implements an interface although there are no shared schemas")
		}
		sym.Assert(t.kind == "type", "the GraphQL type of a branch is no type")
		sym.Assert(t.model == "imp/pkg."+vTitle(p.file), "the GraphQL type of a branch is not bound to its Go struct")
		own := []*vPart{p}
		if len(p.all) > 0 && !args.EmbedAllOf {
			// the properties of the schema that the branch shares are those of the branch
			merged := *p
			merged.props = append([]*vProp(nil), p.props...)
			for _, q := range p.all[0].props {
				if q.name == p.props[0].name {
					r := *p.props[0]
					r.req = r.req || q.req
					merged.props[0] = &r
				} else {
					merged.props = append(merged.props, q)
				}
			}
			own = []*vPart{&merged}
		}
		if len(p.all) > 0 && args.EmbedAllOf {
			own = append(own, p.all...)
		}
		check(t, own, root.all)
	}
	for _, t := range types {
		sym.Assert(used[t.name], "a GraphQL file declares a type that nothing uses")
	}
}
