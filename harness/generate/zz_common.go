package generate

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vProp is a property of a schema.
type vProp struct {
	reqToo string // a name that is required beside, of no property
	name   string
	kind   string // boolean number integer string date object map array hydration
	null   int    // null in the list of types: 0 absent, 1 first, 2 last
	req    bool
	desc   string
	format string // of kinds other than date, unless empty
	items  *vProp
	props  []*vProp
	// GraphQL
	target string
	args   []string
}

// text is the definition of the property.
func (p *vProp) text() string {
	k := p.kind
	switch k {
	case "date":
		k = "string"
	case "map":
		k = "object"
	case "hydration":
		k = "graphql-hydration"
	}
	t := `"` + k + `"`
	switch p.null {
	case 1:
		t = `["null","` + k + `"]`
	case 2:
		t = `["` + k + `","null"]`
	}
	s := `{"type":` + t
	if p.desc != "" {
		s += `,"description":"` + vEscape(p.desc) + `"`
	}
	if p.target != "" {
		s += `,"target":"` + p.target + `"`
	}
	if p.args != nil {
		s += `,"graphql-arguments":["` + strings.Join(p.args, `","`) + `"]`
	}
	if p.format != "" {
		s += `,"format":"` + p.format + `"`
	}
	switch p.kind {
	case "date":
		s += `,"format":"date-time"`
	case "object":
		s += "," + vProps(p.props)
	case "map":
		s += `,"properties":{}`
	case "array":
		s += `,"items":` + p.items.text()
	}
	return s + "}"
}

// vEscape escapes the characters of a JSON string that need it.
func vEscape(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '"', '\\':
			b = append(b, '\\', c)
		case '\n':
			b = append(b, '\\', 'n')
		case '\t':
			b = append(b, '\\', 't')
		case '\r':
			b = append(b, '\\', 'r')
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

// vTrim is a line without the blanks at its end, which the formatter of Go removes from comments.
func vTrim(s string) string {
	n := len(s)
	for n > 0 && (s[n-1] == ' ' || s[n-1] == '\t') {
		n--
	}
	return s[:n]
}

// vProps are the members "properties" and "required" of an object.
func vProps(ps []*vProp) string {
	s := `"properties":{`
	req := ""
	for i, p := range ps {
		if i > 0 {
			s += ","
		}
		s += `"` + p.name + `":` + p.text()
		if p.req {
			if req != "" {
				req += ","
			}
			req += `"` + p.name + `"`
		}
		if p.reqToo != "" {
			if req != "" {
				req += ","
			}
			req += `"` + p.reqToo + `"`
		}
	}
	s += "}"
	if req != "" {
		s += `,"required":[` + req + `]`
	}
	return s
}

// vObject is the schema of an object with the properties.
func vObject(ps []*vProp) string { return `{"type":"object",` + vProps(ps) + `}` }

// vWrite writes a file.
func vWrite(path, text string) {
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic("harness file: " + err.Error())
	}
}

// vDir is a directory with an empty directory "pkg" in it.
func vDir() string {
	d := sym.TempDir()
	if err := os.MkdirAll(d+"/pkg", 0o755); err != nil {
		panic("harness directory: " + err.Error())
	}
	return d
}

// vRead reads a generated file.
func vRead(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		sym.Fail("a file that should have been generated is missing")
	}
	return string(b)
}

// vFiles are the names of the files of a directory.
func vFiles(dir string) string {
	es, err := os.ReadDir(dir)
	if err != nil {
		panic("harness directory: " + err.Error())
	}
	var s []string
	for _, e := range es {
		s = append(s, e.Name())
	}
	return strings.Join(s, " ")
}

// vGo is a parsed Go file.
type vGo struct {
	pkg     string
	imports string
	structs map[string]*ast.StructType
	order   []string
}

// vParse parses generated Go code.
func vParse(text string) *vGo {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", text, parser.ParseComments)
	if err != nil {
		sym.Fail("the generated file is not Go")
	}
	g := &vGo{pkg: f.Name.Name, structs: map[string]*ast.StructType{}}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			sym.Fail("the generated file declares something other than types")
		}
		for _, s := range gd.Specs {
			switch x := s.(type) {
			case *ast.ImportSpec:
				g.imports += x.Path.Value
			case *ast.TypeSpec:
				st, ok := x.Type.(*ast.StructType)
				if !ok {
					sym.Fail("the generated file declares a type that is no struct")
				}
				sym.Assert(g.structs[x.Name.Name] == nil, "a generated file declares a type twice")
				g.structs[x.Name.Name] = st
				g.order = append(g.order, x.Name.Name)
			default:
				sym.Fail("the generated file declares something other than types")
			}
		}
	}
	return g
}

// vTitle is a property name as the name of an exported field.
func vTitle(s string) string {
	if s[0] >= 'a' && s[0] <= 'z' {
		return string([]byte{s[0] - 32}) + s[1:]
	}
	return s
}

// vUse is what a struct needs.
type vOpts struct {
	pointers, flat, tag bool // Pointers, NoNestedStructs, DescriptionAsStructTag
	rename              map[string]string
	typeName            string // the name that StructNameMap gives, or nothing
	embeds              []string
	used                map[string]bool // the named structs that were used, with flat
}

// vFields checks the fields of a struct against the properties.
func vFields(g *vGo, st *ast.StructType, ps []*vProp, o *vOpts, typeName string, embeds []string) {
	var fs []*ast.Field
	for _, f := range st.Fields.List {
		if len(f.Names) == 0 {
			id, ok := f.Type.(*ast.Ident)
			if !ok || len(embeds) == 0 || id.Name != embeds[0] {
				sym.Fail("a struct embeds another type than its shared structs")
			}
			embeds = embeds[1:]
			continue
		}
		if len(f.Names) != 1 {
			sym.Fail("a field has several names")
		}
		fs = append(fs, f)
	}
	sym.Assert(len(embeds) == 0, "a struct does not embed one of the shared structs")
	n := 0
	for _, p := range ps {
		if p.kind == "hydration" {
			continue
		}
		n++
		want := vTitle(p.name)
		if r, ok := o.rename[p.name]; ok {
			want = vTitle(r)
		}
		var f *ast.Field
		for _, c := range fs {
			if c.Names[0].Name == want {
				f = c
			}
		}
		if f == nil {
			sym.Fail("a property has no field in the generated struct")
		}
		vField(g, f, p, o, typeName)
	}
	sym.Assert(len(fs) == n, "a generated struct has another field than those of its properties")
}

// vField checks a field of a struct.
func vField(g *vGo, f *ast.Field, p *vProp, o *vOpts, typeName string) {
	if f.Tag == nil {
		sym.Fail("a field has no tag")
	}
	raw, err := strconv.Unquote(f.Tag.Value)
	if err != nil {
		sym.Fail("a field has a tag that is no string")
	}
	parts := strings.Split(reflect.StructTag(raw).Get("json"), ",")
	sym.Assert(parts[0] == p.name, "the JSON name of a field is not the name of its property")
	empty, zero := false, false
	for _, x := range parts[1:] {
		switch x {
		case "omitempty":
			empty = true
		case "omitzero":
			zero = true
		default:
			sym.Fail("a field has an unknown JSON option")
		}
	}
	_, plain := f.Type.(*ast.StructType)
	if id, ok := f.Type.(*ast.Ident); ok && g.structs[id.Name] != nil {
		plain = true
	}
	switch {
	case p.req:
		sym.Assert(!empty && !zero, "a required property is left out when it is empty")
	case plain:
		sym.Assert(zero, "an optional object is not left out when it is empty")
	default:
		sym.Assert(empty || zero, "an optional property is not left out when it is empty")
	}
	desc := reflect.StructTag(raw).Get("description")
	if o.tag {
		first := p.desc
		if i := strings.IndexByte(first, '\n'); i >= 0 {
			first = first[:i]
		}
		sym.Assert(desc == first, "the description tag of a field is not the first line of the description")
	} else {
		sym.Assert(desc == "", "a field has a description tag that was not asked for")
		doc := ""
		if f.Doc != nil {
			for _, c := range f.Doc.List {
				doc += vTrim(strings.TrimPrefix(strings.TrimPrefix(c.Text, "//"), " ")) + "\n"
			}
		}
		if p.desc == "" {
			sym.Assert(doc == "", "a field has a comment although the property has no description")
		} else {
			want := ""
			for _, l := range strings.Split(p.desc, "\n") {
				want += vTrim(l) + "\n"
			}
			sym.Assert(doc == want, "the comment of a field is not the description of the property")
		}
	}
	vType(g, f.Type, p, o, p.req, typeName+vTitle(p.name), false)
}

func vIdent(e ast.Expr, name, msg string) {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		sym.Fail(msg)
	}
}

// vType checks the type of a field. req: the field is required. item: e is the type of the items of an array, whose null
// may be left to the item's own zero value.
func vType(g *vGo, e ast.Expr, p *vProp, o *vOpts, req bool, typeName string, item bool) {
	star := false
	if x, ok := e.(*ast.StarExpr); ok {
		star = true
		e = x.X
	}
	wantStar, free := p.null > 0, item
	switch p.kind {
	case "boolean":
		vIdent(e, "bool", "a boolean does not become a bool")
	case "number":
		vIdent(e, "float64", "a number does not become a float64")
	case "integer":
		vIdent(e, "int64", "an integer does not become an int64")
	case "string":
		vIdent(e, "string", "a string does not become a string")
	case "date":
		s, ok := e.(*ast.SelectorExpr)
		if !ok || s.Sel.Name != "Time" {
			sym.Fail("a date does not become a time")
		}
		vIdent(s.X, "time", "a date does not become a time of package time")
		sym.Assert(g.imports == `"time"`, "a generated file with times does not import package time")
		if o.pointers && !req {
			wantStar, free = true, false
		}
	case "map":
		m, ok := e.(*ast.MapType)
		if !ok {
			sym.Fail("an object without properties does not become a map")
		}
		vIdent(m.Key, "string", "an object without properties does not become a map of strings")
		vIdent(m.Value, "string", "an object without properties does not become a map of strings")
		free = free || o.flat
	case "array":
		a, ok := e.(*ast.ArrayType)
		if !ok || a.Len != nil {
			sym.Fail("an array does not become a slice")
		}
		sym.Assert(!star, "an array becomes a pointer")
		it := *p.items
		if p.null > 0 {
			it.null = 1
		}
		vType(g, a.Elt, &it, o, req, typeName, p.null > 0 || p.items.null > 0)
		return
	case "object":
		if o.flat {
			id, ok := e.(*ast.Ident)
			if !ok {
				sym.Fail("an object does not become a named struct")
			}
			st := g.structs[id.Name]
			if st == nil {
				sym.Fail("the struct of an object is not declared")
			}
			sym.Assert(id.Name == typeName, "the struct of an object is not named after its path")
			sym.Assert(!o.used[id.Name], "two objects share one struct")
			o.used[id.Name] = true
			if o.pointers && !req {
				wantStar, free = true, false
			}
			vFields(g, st, p.props, o, typeName, nil)
		} else {
			st, ok := e.(*ast.StructType)
			if !ok {
				sym.Fail("an object does not become a struct")
			}
			vFields(g, st, p.props, o, typeName, nil)
		}
	default:
		panic("harness kind " + p.kind)
	}
	if !free {
		sym.Assert(star == wantStar, "a field is a pointer exactly if it may be null or is an optional object or time that is asked to be a pointer")
	}
}

// vCheckGo checks a generated Go file against the properties of its schema.
func vCheckGo(text, typeName string, ps []*vProp, o *vOpts) {
	g := vParse(text)
	sym.Assert(g.pkg == "pkg", "the package is not named after its directory")
	st := g.structs[typeName]
	if st == nil {
		sym.Fail("the struct of the schema is missing")
	}
	o.used = map[string]bool{typeName: true}
	vFields(g, st, ps, o, typeName, o.embeds)
	sym.Assert(len(o.used) == len(g.structs), "a generated file declares a struct that nothing uses")
}

// vBuildGo generates the Go struct of an object with the properties and checks it.
func vBuildGo(ps []*vProp, o *vOpts) string {
	d := vDir()
	vWrite(d+"/thing.json", vObject(ps))
	typeName := "Thing"
	var names map[string]string
	if o.typeName != "" {
		typeName = o.typeName
		names = map[string]string{"thing": typeName, "other": "Wrong"}
	}
	err := BuildStructsWithArgs(BuildArgs{SchemaPath: d + "/thing.json", OutputDir: d + "/pkg",
		Pointers: o.pointers, NoNestedStructs: o.flat, DescriptionAsStructTag: o.tag, FieldNameMap: o.rename, StructNameMap: names})
	if err != nil {
		sym.Observe("error", err.Error())
		sym.Fail("no struct is generated for a proper schema")
	}
	sym.Assert(vFiles(d+"/pkg") == "thing.go", "other files than that of the schema are generated")
	text := vRead(d + "/pkg/thing.go")
	vCheckGo(text, typeName, ps, o)
	return text
}

var vLeaves = []string{"boolean", "number", "integer", "string", "date", "map"}

// vName is a property name: a letter and up to n letters, digits and underscores.
func vName(tag string, n int) string {
	first := sym.StrN(tag+"0", 1, 'A', 'z')
	sym.Assume(sym.Or(first[0] <= 'Z', first[0] >= 'a'))
	rest := sym.StrN(tag, n, '0', 'z')
	for i := 0; i < n; i++ {
		c := rest[i]
		sym.Assume(sym.Or(c <= '9', sym.And(c >= 'A', c <= 'Z'), c == '_', c >= 'a'))
	}
	return first + rest
}

// vTree chooses a property.
func vTree(name string, depth int) *vProp {
	p := &vProp{name: name, req: sym.Choose("req", 2) == 1}
	if depth == 0 {
		p.kind = []string{"string", "date", "map"}[sym.Choose("leaf", 3)]
		return p
	}
	switch sym.Choose("shape", 3) {
	case 0:
		p.kind = "object"
		p.null = sym.Choose("null", 2)
		p.props = []*vProp{vTree("a", depth-1)}
		if sym.Choose("more", 2) == 1 {
			p.props = append([]*vProp{{name: "b", kind: "integer"}}, p.props...)
		}
	case 1:
		p.kind = "array"
		p.items = &vProp{kind: "object", props: []*vProp{vTree("a", depth-1)}}
	case 2:
		p.kind = "array"
		p.items = &vProp{kind: []string{"number", "date"}[sym.Choose("leaf", 2)]}
	}
	return p
}

// vChooseOpts chooses the options of the Go structs.
func vChooseOpts() *vOpts {
	c := sym.Choose("options", 8)
	return &vOpts{pointers: c&1 != 0, flat: c&2 != 0, tag: c&4 != 0}
}
