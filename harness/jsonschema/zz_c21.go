package jsonschema

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vSchemaFile is a file that declares properties and branches.
type vSchemaFile struct {
	own      []string // names of the properties, nil for none at all
	required []string
	items    string
	all, one []int // branches: other files
	nest     int   // a property that refers to a file, 0 for none
}

// vLoaded is what loading a file should give: the description of each property, the required names and the items.
type vLoaded struct {
	props    map[string]string
	nested   map[string]*vLoaded
	required []string
	items    string
}

func vMark(file int, name string) string { return "f" + strconv.Itoa(file) + "." + name }

func vMarkItem(file int) string {
	return `{"type":"string","description":"item` + strconv.Itoa(file) + `"}`
}

// text writes a file.
func (f *vSchemaFile) text(file int) string {
	parts := []string{`"type":"object"`, `"description":"file` + strconv.Itoa(file) + `"`}
	if f.own != nil || f.nest > 0 {
		var ps []string
		for _, n := range f.own {
			ps = append(ps, `"`+n+`":{"type":"string","description":"`+vMark(file, n)+`"}`)
		}
		if f.nest > 0 {
			ps = append(ps, `"nest":{"$ref":"f`+strconv.Itoa(f.nest)+`.json"}`)
		}
		parts = append(parts, `"properties":{`+strings.Join(ps, ",")+`}`)
	}
	refs := func(l []int) string {
		var rs []string
		for _, r := range l {
			rs = append(rs, `{"$ref":"f`+strconv.Itoa(r)+`.json"}`)
		}
		return strings.Join(rs, ",")
	}
	if f.all != nil {
		parts = append(parts, `"allOf":[`+refs(f.all)+`]`)
	}
	if f.one != nil {
		parts = append(parts, `"oneOf":[`+refs(f.one)+`]`)
	}
	if f.required != nil {
		parts = append(parts, `"required":["`+strings.Join(f.required, `","`)+`"]`)
	}
	if f.items != "" {
		parts = append(parts, `"items":`+f.items)
	}
	return `{` + strings.Join(parts, ",") + `}`
}

// vLoad is the reference implementation of loading a file.
func vLoad(files []*vSchemaFile, file int, typ string, flatten bool) *vLoaded {
	f := files[file]
	l := &vLoaded{props: map[string]string{}, nested: map[string]*vLoaded{}, items: f.items}
	for _, n := range f.own {
		l.props[n] = vMark(file, n)
	}
	if f.nest > 0 {
		l.nested["nest"] = vLoad(files, f.nest, typ, flatten)
		l.props["nest"] = "file" + strconv.Itoa(f.nest)
	}
	l.required = append(l.required, f.required...)
	merge := func(b *vLoaded) {
		for n, d := range b.props {
			if _, have := l.props[n]; !have {
				l.props[n] = d
				if b.nested[n] != nil {
					l.nested[n] = b.nested[n]
				}
			}
		}
		l.required = append(l.required, b.required...)
		if l.items == "" {
			l.items = b.items
		}
	}
	if flatten || f.own == nil && f.nest == 0 {
		for _, b := range f.all {
			merge(vLoad(files, b, typ, flatten))
		}
	}
	for _, b := range f.one {
		if typ == "f"+strconv.Itoa(b) {
			merge(vLoad(files, b, typ, flatten))
		}
	}
	return l
}

// vSameSchema checks a loaded instance.
func vSameSchema(i *Instance, w *vLoaded) {
	sym.Assert(len(i.Properties) == len(w.props), "a schema has the properties of its branches and no others")
	for n, d := range w.props {
		raw, have := i.Properties[n]
		sym.Assert(have, "a schema has every property of its branches")
		var p Instance
		sym.Assert(json.Unmarshal(raw, &p) == nil, "a property is an instance")
		sym.Assert(p.Description == d, "a property is the one of the schema itself, else of the first branch that has it")
		if w.nested[n] != nil {
			vSameSchema(&p, w.nested[n])
		} else {
			sym.Assert(vStrings(p.Type, []string{"string"}), "a property keeps its type")
		}
	}
	sym.Assert(vStrings(i.Required, w.required), "the required names are those of the schema and its branches")
	got := ""
	if i.Items != nil {
		var it Instance
		sym.Assert(json.Unmarshal(i.Items, &it) == nil, "the items are an instance")
		got = it.Description
	}
	want := ""
	if w.items != "" {
		want = w.items[strings.Index(w.items, "item") : len(w.items)-2]
	}
	sym.Assert(got == want, "the items are those of the schema itself, else of the first branch that has some")
}

// vFlatten writes the files, loads the first and checks it.
func vFlatten(files []*vSchemaFile, typ string, flatten bool, order int) {
	d := sym.TempDir()
	root := ""
	for i := len(files) - 1; i >= 0; i-- {
		root = vFile(d, "f"+strconv.Itoa(i)+".json", files[i].text(i))
	}
	want := vLoad(files, 0, typ, flatten)
	sym.MapOrder(order, 3)
	load := SchemaFromFile
	if !flatten {
		load = SchemaFromFileNoFlatten
	}
	s, err := load(root, typ)
	if err != nil {
		sym.Fail("a schema with branches is loaded: " + err.Error())
	}
	vSameSchema(&s.Instance, want)
	sym.Assert(s.Validator != nil, "a loaded schema has a validator")
	again, err := load(root, typ)
	sym.Assert(err == nil && again == s, "loading again gives the same schema")
	vSameSchema(&again.Instance, want)
	sym.Reach("end")
}

// vSubset chooses a subset of the files after one.
func vSubset(name string, from, n int) []int {
	var l []int
	k := sym.Choose(name, 1<<(n-from))
	for i := from; i < n; i++ {
		if k>>(i-from)&1 == 1 {
			l = append(l, i)
		}
	}
	return l
}

// Verif_C21_branches checks every arrangement of branches.
// Bounds: three files; each may have no property, or one of its own and one all have; each refers to any set of later
// files in allOf and any in oneOf; every type of a file or none; flattened or not; maps in order or reverse
// order (thorough: every order).
func Verif_C21_branches() {
	n := 3
	var files []*vSchemaFile
	for i := 0; i < n; i++ {
		f := &vSchemaFile{}
		if i == n-1 || sym.Choose("own", 2) == 1 {
			f.own = []string{"p" + strconv.Itoa(i), "same"}
			f.required = f.own[:1]
		}
		if i < n-1 {
			f.all = vSubset("all", i+1, n)
			f.one = vSubset("one", i+1, n)
		}
		files = append(files, f)
	}
	vFlatten(files, []string{"", "f1", "f2", "f3", "f", "f1.json"}[sym.Choose("type", 6)], sym.Choose("flatten", 2) == 1, 2-sym.Tier())
}

// Verif_C21_names checks which of several properties of one name is taken.
// Bounds: four files with a property with a symbolic name of one letter (thorough: two) each, required or not; the first has two branches
// in allOf in either order and one in oneOf that has a branch of its own; the type of that branch or none.
func Verif_C21_names() {
	var files []*vSchemaFile
	for i := 0; i < 4; i++ {
		f := &vSchemaFile{own: []string{sym.StrN("name", 1+sym.Tier(), 'a', 'z')}}
		if sym.Choose("required", 2) == 1 {
			f.required = f.own
		}
		files = append(files, f)
	}
	if sym.Choose("none", 2) == 1 {
		files[0].own = nil
	}
	files[0].all = [][]int{{1, 2}, {2, 1}}[sym.Choose("order", 2)]
	files[0].one = []int{3}
	files[3].all = []int{2}
	vFlatten(files, []string{"", "f3"}[sym.Choose("type", 2)], sym.Choose("flatten", 2) == 1, 2-sym.Tier())
}

// Verif_C21_items checks the items of branches.
// Bounds: three files, each with items or not; the first refers to the others in allOf or oneOf; every type.
func Verif_C21_items() {
	var files []*vSchemaFile
	for i := 0; i < 3; i++ {
		f := &vSchemaFile{own: []string{"p" + strconv.Itoa(i)}}
		if sym.Choose("items", 2) == 1 {
			f.items = vMarkItem(i)
		}
		files = append(files, f)
	}
	if sym.Choose("none", 2) == 1 {
		files[0].own = nil
	}
	files[0].all = vSubset("all", 1, 3)
	files[0].one = vSubset("one", 1, 3)
	vFlatten(files, []string{"", "f1", "f2"}[sym.Choose("type", 3)], sym.Choose("flatten", 2) == 1, 2-sym.Tier())
}

// Verif_C21_nested checks files with branches behind a property.
// Bounds: four files; the first has a property that refers to the second, which has a branch in allOf and one in oneOf; every type.
func Verif_C21_nested() {
	files := []*vSchemaFile{
		{own: []string{"a"}, nest: 1, all: vSubset("all0", 2, 4)},
		{own: [][]string{nil, {"b"}}[sym.Choose("own", 2)], all: vSubset("all", 2, 4), one: vSubset("one", 2, 4)},
		{own: []string{"c", "same"}, required: []string{"c"}},
		{own: []string{"d", "same"}},
	}
	vFlatten(files, []string{"", "f1", "f2", "f3"}[sym.Choose("type", 4)], sym.Choose("flatten", 2) == 1, 2-sym.Tier())
}

// Verif_C21_inline checks branches written in place and branches that are definitions.
// Bounds: a file with two branches in allOf, written in place or as a definition, and two definitions in oneOf, with symbolic names of
// their properties; every type.
func Verif_C21_inline() {
	d := sym.TempDir()
	var names []string
	for i := 0; i < 5; i++ {
		names = append(names, sym.StrN("name", 1, 'a', 'z'))
	}
	def := func(i int) string {
		return `{"type":"object","properties":{"` + names[i] + `":{"type":"string","description":"` + vMark(i, "x") + `"}},"required":["` + names[i] + `"]}`
	}
	branch := func(i int) string {
		if sym.Choose("place", 2) == 0 {
			return def(i)
		}
		return `{"$ref":"#/definitions/f` + strconv.Itoa(i) + `"}`
	}
	text := `{"type":"object","properties":{"` + names[0] + `":{"type":"string","description":"` + vMark(0, "x") + `"}},"required":["` + names[0] + `"],` +
		`"allOf":[` + branch(1) + `,` + branch(2) + `],"oneOf":[{"$ref":"#/definitions/f3"},{"$ref":"#/definitions/f4"}],` +
		`"definitions":{"f1":` + def(1) + `,"f2":` + def(2) + `,"f3":` + def(3) + `,"f4":` + def(4) + `}}`
	root := vFile(d, "f.json", text)
	typ := []string{"f3", "f4", "none"}[sym.Choose("type", 3)]
	order := []int{0, 1, 2}
	if typ == "f3" {
		order = append(order, 3)
	} else if typ == "f4" {
		order = append(order, 4)
	}
	want := &vLoaded{props: map[string]string{}}
	for _, i := range order {
		if _, have := want.props[names[i]]; !have {
			want.props[names[i]] = vMark(i, "x")
		}
		want.required = append(want.required, names[i])
	}
	s, err := SchemaFromFile(root, typ)
	if err != nil {
		sym.Fail("a schema with branches is loaded: " + err.Error())
	}
	vSameSchema(&s.Instance, want)
	sym.Reach("end")
}

// Verif_C21_choice checks which branches of oneOf are chosen.
// Bounds: two branches in oneOf that are definitions with symbolic names of one or two letters, optionally with an extension; a type of up to
// three bytes.
func Verif_C21_choice() {
	d := sym.TempDir()
	name := func(n string) string {
		if sym.Choose(n+"case", 2) == 1 {
			return sym.StrN(n, 1, 'A', 'Z') + sym.StrIn(n+"2", 1, 'a', 'z')
		}
		return sym.StrN(n, 1, 'a', 'z')
	}
	n1, n2 := name("n1"), name("n2")
	sym.Assume(n1 != n2)
	ext := []string{"", ".json"}[sym.Choose("ext", 2)]
	typ := ""
	switch sym.Choose("type", 3) {
	case 0:
		typ = sym.StrIn("typ", 3, 'A', 'Z')
	case 1:
		typ = sym.StrIn("typ", 3, 'a', 'z')
	case 2:
		typ = sym.StrN("typ", 1, 'A', 'Z') + sym.StrN("typ2", 1, 'a', 'z')
	}
	def := func(i int) string {
		p := "p" + strconv.Itoa(i)
		return `{"type":"object","properties":{"` + p + `":{"type":"string","description":"` + vMark(i, p) + `"}},"required":["` + p + `"]}`
	}
	text := `{"type":"object","properties":{"p0":{"type":"string","description":"` + vMark(0, "p0") + `"}},"oneOf":[{"$ref":"#/definitions/` + n1 + ext + `"},{"$ref":"#/definitions/` + n2 + ext + `"}],` +
		`"definitions":{"` + n1 + ext + `":` + def(1) + `,"` + n2 + ext + `":` + def(2) + `}}`
	want := &vLoaded{props: map[string]string{"p0": vMark(0, "p0")}}
	for i, n := range []string{n1, n2} {
		if n == typ {
			p := "p" + strconv.Itoa(i+1)
			want.props[p] = vMark(i+1, p)
			want.required = append(want.required, p)
			sym.Reach("chosen")
		}
	}
	s, err := SchemaFromFile(vFile(d, "f.json", text), typ)
	if err != nil {
		sym.Fail("a schema with branches is loaded: " + err.Error())
	}
	vSameSchema(&s.Instance, want)
	sym.Reach("end")
}

// Verif_C21_types checks what a file declares.
// Bounds: up to three branches in allOf and oneOf with symbolic names of one letter, in place of some a branch without a reference; up to
// three properties with symbolic names; every order of the properties.
func Verif_C21_types() {
	d := sym.TempDir()
	list := func(name string) (text string, want []string) {
		var parts []string
		for i, n := 0, sym.Choose(name, 4); i < n; i++ {
			if sym.Choose("inline", 3) == 0 {
				parts = append(parts, `{"type":"object","properties":{"no":{"type":"string"}}}`)
				want = append(want, "")
				continue
			}
			r := sym.StrN("ref", 1, 'a', 'z') + ".json"
			parts = append(parts, `{"$ref":"`+r+`"}`)
			want = append(want, r)
		}
		return strings.Join(parts, ","), want
	}
	all, wantAll := list("all")
	one, wantOne := list("one")
	names := map[string]bool{}
	var props []string
	for i, n := 0, sym.Choose("props", 4); i < n; i++ {
		p := sym.StrN("prop", 1, 'a', 'z')
		if names[p] {
			sym.Skip()
		}
		names[p] = true
		props = append(props, `"`+p+`":{"type":"object","properties":{"no":{"type":"string"}},"allOf":[{"$ref":"no.json"}]}`)
	}
	sym.MapOrder(1, 3)
	a, o, p, err := SchemaTypes(vFile(d, "f.json", `{"type":"object","allOf":[`+all+`],"oneOf":[`+one+`],"properties":{`+strings.Join(props, ",")+`}}`))
	sym.Assert(err == nil, "a schema is read")
	sym.Assert(vStrings(a, wantAll), "the allOf types are the references in allOf in order")
	sym.Assert(vStrings(o, wantOne), "the oneOf types are the references in oneOf in order")
	sym.Assert(len(p) == len(names), "the properties are those of the schema itself")
	for i, x := range p {
		sym.Assert(names[x], "the properties are those of the schema itself")
		sym.Assert(i == 0 || p[i-1] < x, "the properties are sorted")
	}
	sym.Reach("end")
}

// Verif_C21_named checks which branch is chosen.
// Bounds: two branches in files with one of nine names (directories, several dots, upper case) each, and a chosen type of one or two
// symbolic letters, or of the form a.b; flattened or not.
func Verif_C21_named() {
	names := []string{"a.json", "b.json", "ab.json", "a.b.json", "b.a.v1.json", "A.json", "sub/a.json", "a.b/b.json", "./sub/../ab.json"}
	bases := []string{"a", "b", "ab", "a", "b", "A", "a", "b", "ab"}
	i, j := sym.Choose("first", len(names)), sym.Choose("second", len(names))
	typ := ""
	switch k := sym.Choose("type", 4); k {
	case 3:
		typ = "a.b"
	default:
		typ = sym.StrN("t", k, 'A', 'b')
	}
	d := sym.TempDir()
	for k, n := range names[:8] {
		vFile(d, n, `{"type":"object","properties":{"p`+strconv.Itoa(k)+`":{"type":"string"}},"required":["p`+strconv.Itoa(k)+`"]}`)
	}
	vFile(d, "sub/x.json", "{}")
	root := vFile(d, "root.json", `{"type":"object","properties":{"own":{"type":"number"}},"oneOf":[{"$ref":"`+names[i]+`"},{"$ref":"`+names[j]+`"}]}`)
	load := SchemaFromFile
	if sym.Choose("flatten", 2) == 0 {
		load = SchemaFromFileNoFlatten
	}
	s, err := load(root, typ)
	sym.Assert(err == nil, "a schema with branches is loaded")
	want := 1
	if i == 8 {
		i = 2 // the same file
	}
	if j == 8 {
		j = 2
	}
	for n, k := range []int{i, j} {
		chosen := typ == bases[k]
		_, have := s.Properties["p"+strconv.Itoa(k)]
		if n == 0 || j != i {
			sym.Assert(have == chosen, "exactly the branches named like the type are merged")
			if chosen {
				want++
			}
		}
	}
	sym.Assert(len(s.Properties) == want, "a schema has the properties of its branches and no others")
	sym.Observe("required", strings.Join(s.Required, ","))
	sym.Reach("end")
}
