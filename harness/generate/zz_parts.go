package generate

import (
	"go/ast"
	"reflect"
	"strconv"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vPart is a schema file that others refer to, with its properties and the files it shares.
type vPart struct {
	file   string // without extension
	rename string // the name that StructNameMap gives, or nothing
	props  []*vProp
	all    []*vPart
	one    []*vPart
	ext    string
	empty  bool // write an empty object if there are no properties
}

func (p *vPart) typeName() string {
	if p.rename != "" {
		return p.rename
	}
	return vTitle(p.file)
}

func vRefs(key string, ps []*vPart) string {
	if len(ps) == 0 {
		return ""
	}
	s := `,"` + key + `":[`
	for i, p := range ps {
		if i > 0 {
			s += ","
		}
		s += `{"$ref":"` + p.file + p.ext + `"}`
	}
	return s + "]"
}

// write writes the schema file.
func (p *vPart) write(dir string) {
	props := ""
	if len(p.props) > 0 || p.empty {
		props = "," + vProps(p.props)
	}
	vWrite(dir+"/"+p.file+p.ext, `{"type":"object"`+props+vRefs("allOf", p.all)+vRefs("oneOf", p.one)+`}`)
}

// vReach is a field of a struct or of a struct embedded in it.
type vReach struct {
	json  string
	field *ast.Field
	depth int
	tie   bool // several at the least depth
}

// vResolve finds the fields of a struct that package encoding/json writes: for each JSON name the one with the least
// depth of embedding. structs: all structs of the package.
func vResolve(structs map[string]*ast.StructType, name string) []*vReach {
	var out []*vReach
	level, seen := []string{name}, map[string]bool{}
	for depth := 0; len(level) > 0; depth++ {
		var next []string
		for i, n := range level {
			if seen[n] {
				continue
			}
			st := structs[n]
			if st == nil {
				sym.Fail("a struct embeds a struct that is not generated")
			}
			times := 0
			for _, m := range level {
				if m == n {
					times++
				}
			}
			first := true
			for _, m := range level[:i] {
				first = first && m != n
			}
			if !first {
				continue
			}
			for _, f := range st.Fields.List {
				if len(f.Names) == 0 {
					id, ok := f.Type.(*ast.Ident)
					if !ok {
						sym.Fail("a struct embeds something that is no struct of its package")
					}
					next = append(next, id.Name)
					continue
				}
				raw, _ := strconv.Unquote(f.Tag.Value)
				j := strings.Split(reflect.StructTag(raw).Get("json"), ",")[0]
				old := false
				for _, r := range out {
					if r.json == j {
						old = true
						sym.Assert(depth > 0 || r.depth > 0, "a struct has two fields of one name")
						r.tie = r.tie || r.depth == depth
					}
				}
				if !old {
					out = append(out, &vReach{json: j, field: f, depth: depth, tie: times > 1})
				}
			}
		}
		for _, n := range level {
			seen[n] = true
		}
		level = next
	}
	return out
}

// vOwner is a property with the schema that it comes from.
type vOwner struct {
	p     *vProp
	owner *vPart
}

// vMerged are the properties of a part: its own, and of those it shares the ones that it has not itself.
func vMerged(p *vPart, root *vPart) []vOwner {
	var out []vOwner
	add := func(ps []vOwner) {
		n := len(out)
		for _, q := range ps {
			old := false
			for _, o := range out[:n] {
				old = old || o.p.name == q.p.name
			}
			if !old {
				out = append(out, q)
			}
		}
	}
	var own []vOwner
	for _, q := range p.props {
		own = append(own, vOwner{q, p})
	}
	add(own)
	var shared []vOwner
	for _, a := range p.all {
		shared = append(shared, vMerged(a, nil)...)
	}
	if root != nil {
		shared = append(shared, vMerged(root, nil)...)
	}
	add(shared)
	return out
}

// vComposite chooses a schema of shared schemas and branches. Every schema has a property of its own and some have another
// with a name of the pool.
func vComposite(overlap bool) *vPart {
	root := &vPart{file: "asset", ext: ".v4.json"}
	base := &vPart{file: "base", ext: ".json", props: []*vProp{{name: "b0", kind: "integer"}}}
	common := &vPart{file: "common", ext: ".v1.json", props: []*vProp{{name: "c0", kind: "number", req: true}}}
	thing := &vPart{file: "thing", ext: ".json", props: []*vProp{{name: "t0", kind: "string"}}}
	other := &vPart{file: "other", ext: ".v3.json", props: []*vProp{{name: "o0", kind: "string", req: true}}}
	mid := &vPart{file: "mid", ext: ".v2.json", props: []*vProp{{name: "m0", kind: "boolean"}}}
	switch sym.Choose("shared", 3) {
	case 1:
		root.all = []*vPart{base}
	case 2:
		root.all = []*vPart{base, common}
	}
	switch sym.Choose("branches", 3) {
	case 1:
		root.one = []*vPart{thing}
	case 2:
		root.one = []*vPart{thing, other}
	}
	if sym.Choose("properties", 2) == 1 {
		root.props = []*vProp{{name: "r0", kind: "date", req: true}}
	}
	if len(root.props)+len(root.all)+len(root.one) == 0 {
		sym.Skip()
	}
	if len(root.one) > 0 && sym.Choose("branch shares", 2) == 1 {
		thing.all = []*vPart{mid}
	}
	if overlap {
		for _, p := range []*vPart{root, base, thing, mid} {
			if len(p.props) > 0 {
				p.props = append(p.props, &vProp{name: vLower(p.file), kind: p.props[0].kind})
			}
		}
	}
	return root
}

// vLower is a name of one small letter.
func vLower(tag string) string { return sym.StrN("name of "+tag, 1, 'a', 'z') }

// parts are the parts of a schema in the order in which their structs are generated.
func (p *vPart) parts() []*vPart {
	var out []*vPart
	out = append(out, p.all...)
	if len(p.props) > 0 || len(p.all) == 0 && len(p.one) == 0 {
		out = append(out, p)
	}
	return append(out, p.one...)
}

// vBuildComposite generates the files of a schema with shared schemas and branches in d/pkg.
func vBuildComposite(d string, root *vPart, args BuildArgs) {
	seen := map[*vPart]bool{}
	var write func(p *vPart)
	write = func(p *vPart) {
		if seen[p] {
			return
		}
		seen[p] = true
		p.write(d)
		if p.rename != "" {
			if args.StructNameMap == nil {
				args.StructNameMap = map[string]string{}
			}
			args.StructNameMap[p.file] = p.rename
		}
		for _, q := range append(append([]*vPart(nil), p.all...), p.one...) {
			write(q)
		}
	}
	write(root)
	want := map[string]bool{}
	if args.EmbedAllOf {
		// the structs that branches share are generated on their own
		for _, o := range root.one {
			for _, m := range o.all {
				mid := args
				mid.SchemaPath, mid.GenerateGraphQL = d+"/"+m.file+m.ext, false
				if err := BuildStructsWithArgs(mid); err != nil {
					sym.Fail("no struct is generated for a proper schema")
				}
				want[m.file+".go"] = true
			}
		}
	}
	args.SchemaPath = d + "/" + root.file + root.ext
	if err := BuildStructsWithArgs(args); err != nil {
		sym.Observe("error", err.Error())
		sym.Fail("no structs are generated for a proper schema with shared schemas and branches")
	}
	for _, p := range root.parts() {
		want[p.file+".go"] = true
	}
	n := 0
	for _, f := range strings.Split(vFiles(d+"/pkg"), " ") {
		if strings.HasSuffix(f, ".graphqls") {
			continue
		}
		n++
		sym.Assert(want[f], "another file is generated than one for each shared schema and branch")
	}
	sym.Assert(n == len(want), "a shared schema or a branch has no generated file")
}

// vPackage parses all Go files of a package.
func vPackage(dir string) *vGo {
	all := &vGo{structs: map[string]*ast.StructType{}}
	for _, f := range strings.Split(vFiles(dir), " ") {
		if !strings.HasSuffix(f, ".go") {
			continue
		}
		g := vParse(vRead(dir + "/" + f))
		sym.Assert(g.pkg == "pkg", "the package is not named after its directory")
		if g.imports != "" {
			all.imports = g.imports
		}
		for _, n := range g.order {
			sym.Assert(all.structs[n] == nil, "two generated files declare one struct")
			all.structs[n] = g.structs[n]
		}
	}
	return all
}

// vCheckComposite checks that the struct of each part has the properties of the part.
func vCheckComposite(all *vGo, root *vPart, embed bool) {
	o := &vOpts{}
	for _, p := range root.parts() {
		var want []vOwner
		branch := false
		for _, q := range root.one {
			branch = branch || p == q
		}
		if branch {
			want = vMerged(p, root)
		} else {
			want = vMerged(p, nil)
		}
		if all.structs[p.typeName()] == nil {
			sym.Fail("a shared schema or a branch has no struct")
		}
		got := vResolve(all.structs, p.typeName())
		for i, w := range want {
			var r *vReach
			for _, c := range got {
				if c.json == w.p.name {
					r = c
				}
			}
			if r == nil {
				sym.Fail("a property of a schema or of one that it shares has no field")
			}
			twice := false // another shared schema has the property too, and the schema itself has not
			for j, v := range want {
				twice = twice || i != j && v.p.name == w.p.name
			}
			if twice {
				sym.Finding("ambiguous-embed", !r.tie, "a property that two of the shared schemas have is lost")
				continue
			}
			sym.Assert(!r.tie, "a property is in two embedded structs and so lost in JSON")
			vField(all, r.field, w.p, o, "")
		}
		for _, c := range got {
			known := false
			for _, w := range want {
				known = known || w.p.name == c.json
			}
			sym.Assert(known, "a struct has a field that is no property of its schema or of one that it shares")
		}
	}
}

// vGqlSome checks the fields of a GraphQL type that belong to some of the properties, whose nested types are named after
// another type. It returns how many fields they are.
func vGqlSome(types []*vGqlType, t *vGqlType, ps []*vProp, o *vGqlOpts, gname, mname string) int {
	sub := &vGqlType{kind: t.kind, name: t.name}
	for _, f := range t.fields {
		for _, p := range ps {
			if f.name == p.name || p.kind == "array" && f.name == "total"+vTitle(p.name) {
				sub.fields = append(sub.fields, f)
			}
		}
	}
	vGqlCheck(types, sub, ps, o, gname, mname)
	return len(sub.fields)
}

// vFormatted chooses a property with a format.
func vFormatted() *vProp {
	kinds := []string{"boolean", "number", "integer", "string", "object"}
	p := &vProp{name: "a", kind: kinds[sym.Choose("kind", len(kinds))], null: sym.Choose("null", 3), req: sym.Bool("req")}
	formats := []string{"", "date", "time", "email", "date-time"}
	p.format = formats[sym.Choose("format", len(formats))]
	if p.format == "" {
		f := sym.StrN("format", 9, '-', 'z')
		for i := 0; i < len(f); i++ {
			sym.Assume(sym.Or(f[i] == '-', f[i] >= 'a', sym.And(f[i] >= 'A', f[i] <= 'Z')))
		}
		p.format = f
	}
	if p.kind == "object" {
		p.props = []*vProp{{name: "b", kind: "integer"}}
	}
	if p.kind == "string" && p.format == "date-time" {
		p.kind, p.format = "date", ""
	}
	if sym.Choose("array", 2) == 1 {
		p = &vProp{name: p.name, kind: "array", null: p.null, req: p.req, items: &vProp{kind: p.kind, format: p.format, props: p.props}}
	}
	return p
}
