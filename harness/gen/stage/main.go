// Command stage runs the generator of the current tree on a family of schemas and writes, for every case, a Go function that
// fills a value of the generated struct and builds the tree of values that is expected when it is read back.
//
// It is run natively before the harnesses of package gencheck are loaded; what it generates becomes part of the program
// that is executed symbolically.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/GannettDigital/jstransform/generate"
)

type prop struct {
	name, kind string // kind: boolean number integer string date object map array
	null       bool
	req        bool
	items      *prop
	props      []*prop
}

func (p *prop) text() string {
	k := p.kind
	switch k {
	case "date":
		k = "string"
	case "map":
		k = "object"
	}
	t := `"` + k + `"`
	if p.null {
		t = `["` + k + `","null"]`
	}
	s := `{"type":` + t
	switch p.kind {
	case "date":
		s += `,"format":"date-time"`
	case "object":
		s += "," + propsText(p.props)
	case "map":
		s += `,"properties":{}`
	case "array":
		s += `,"items":` + p.items.text()
	}
	return s + "}"
}

func propsText(ps []*prop) string {
	var fs, req []string
	for _, p := range ps {
		fs = append(fs, fmt.Sprintf("%q:%s", p.name, p.text()))
		if p.req {
			req = append(req, fmt.Sprintf("%q", p.name))
		}
	}
	s := `"properties":{` + strings.Join(fs, ",") + "}"
	if len(req) > 0 {
		s += `,"required":[` + strings.Join(req, ",") + "]"
	}
	return s
}

// part is a schema file.
type part struct {
	file  string
	props []*prop
	all   []string
	one   []string
}

func (p *part) text() string {
	s := `{"type":"object"`
	if len(p.props) > 0 {
		s += "," + propsText(p.props)
	}
	for _, r := range []struct {
		key  string
		refs []string
	}{{"allOf", p.all}, {"oneOf", p.one}} {
		if len(r.refs) > 0 {
			var rs []string
			for _, f := range r.refs {
				rs = append(rs, fmt.Sprintf(`{"$ref":"%s.json"}`, f))
			}
			s += fmt.Sprintf(`,%q:[%s]`, r.key, strings.Join(rs, ","))
		}
	}
	return s + "}"
}

// kase is one run of the generator and the struct that is checked.
type kase struct {
	name           string
	files          []*part
	before         []*part  // earlier schemas, the generated files of which are there
	runs           []string // the schema files the generator is run on
	typeName       string   // the struct that is checked
	props          []*prop  // the fields it has, with those of embedded structs
	flat, pointers bool
	embed          bool
	fields, types  map[string]string
	known          string   // with Avro
	both           bool     // both kinds of code are generated
	inner          []string // embedded structs
}

func title(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

func leaf(name, kind string, req, null bool) *prop {
	return &prop{name: name, kind: kind, req: req, null: null}
}

func arr(name string, req, null bool, items *prop) *prop {
	return &prop{name: name, kind: "array", req: req, null: null, items: items}
}

func obj(name string, req, null bool, ps ...*prop) *prop {
	return &prop{name: name, kind: "object", req: req, null: null, props: ps}
}

var kinds = []string{"boolean", "number", "integer", "string", "date"}

func leaves() []*prop {
	var ps []*prop
	for i, k := range kinds {
		for j := 0; j < 4; j++ {
			ps = append(ps, leaf(fmt.Sprintf("f%d%d", i, j), k, j&1 != 0, j&2 != 0))
		}
	}
	return append(ps, leaf("m0", "map", false, false), leaf("m1", "map", true, false))
}

func lists() []*prop {
	var ps []*prop
	for i, k := range kinds {
		for j := 0; j < 4; j++ {
			ps = append(ps, arr(fmt.Sprintf("l%d%d", i, j), j&1 != 0, false, leaf("", k, false, j&2 != 0)))
		}
		ps = append(ps, arr(fmt.Sprintf("n%d", i), false, true, leaf("", k, false, false)))
	}
	return ps
}

func objects() []*prop {
	return []*prop{
		obj("a", false, false, leaf("a0", "string", false, false), leaf("a1", "date", false, false), leaf("a2", "integer", true, false)),
		obj("b", true, false, leaf("b0", "number", false, true), obj("c", false, false, leaf("c0", "boolean", false, true), leaf("c1", "date", false, true),
			obj("d", true, false, leaf("d0", "string", true, true), arr("d1", false, false, leaf("", "date", false, false)), leaf("d2", "map", false, false)))),
		obj("e", false, true, leaf("e0", "string", false, false), leaf("e1", "date", false, false)),
		obj("g", true, true, leaf("g0", "integer", false, true), obj("h", false, true, leaf("h0", "number", true, false))),
		leaf("z", "string", true, false),
	}
}

func objectLists() []*prop {
	return []*prop{
		arr("a", false, false, obj("", false, false, leaf("a0", "string", false, false), leaf("a1", "date", false, false), leaf("a2", "number", true, false))),
		arr("b", true, false, obj("", false, false, leaf("b0", "integer", false, true), arr("b1", false, false, leaf("", "string", false, false)), leaf("b2", "map", false, false),
			obj("b3", false, false, leaf("b4", "boolean", true, false), leaf("b5", "date", false, false)))),
		arr("c", false, false, obj("", false, true, leaf("c0", "string", false, false), leaf("c1", "date", true, false))),
		arr("d", true, false, obj("", false, false, arr("e", false, false, obj("", false, false, leaf("e0", "integer", false, false), arr("e1", false, false, leaf("", "date", false, true)))))),
		obj("g", false, false, arr("h", true, false, obj("", false, false, leaf("h0", "number", false, false), leaf("h1", "boolean", false, true)))),
	}
}

func names() []*prop {
	var ps []*prop
	for i, n := range []string{"schema", "get", "setString", "finalize", "nullField", "appendArray", "serialize", "schemaName", "setDefault", "avroCRC64Fingerprint", "avroName", "avro", "type", "range", "string", "error", "z", "converted", "generate", "writer", "b_c", "in", "i"} {
		ps = append(ps, leaf(n, kinds[i%len(kinds)], i%2 == 0, false))
	}
	return ps
}

func object(ps []*prop) []*part { return []*part{{file: "thing", props: ps}} }

func cases(forProp string) []*kase {
	var out []*kase
	for _, c := range []struct {
		name string
		ps   []*prop
	}{{"leaves", leaves()}, {"lists", lists()}, {"objects", objects()}, {"objlists", objectLists()}} {
		for o := 0; o < 4; o++ {
			out = append(out, &kase{name: fmt.Sprintf("%s%d", c.name, o), files: object(c.ps), runs: []string{"thing"}, typeName: "Thing", props: c.ps, flat: o&1 != 0, pointers: o&2 != 0})
		}
	}
	ns := names()
	out = append(out, &kase{name: "names", files: object(ns), runs: []string{"thing"}, typeName: "Thing", props: ns, pointers: true})
	ren := []*prop{leaf("a9", "string", true, false), leaf("b", "date", false, false), obj("c", false, false, leaf("d", "integer", false, false)),
		arr("e", true, false, obj("", false, false, leaf("g", "number", false, false))), arr("h", false, false, leaf("", "string", false, false))}
	for o := 0; o < 2; o++ {
		out = append(out, &kase{name: fmt.Sprintf("renamed%d", o), files: object(ren), runs: []string{"thing"}, typeName: "Whatever", props: ren, flat: o == 1, pointers: true,
			fields: map[string]string{"a9": "nineA", "b": "bee", "d": "dee", "g": "gee", "h": "aitch"}, types: map[string]string{"thing": "Whatever"}})
	}
	// shared schemas and branches
	base := []*prop{leaf("b0", "string", true, false), leaf("b1", "date", false, false), leaf("x", "integer", false, false), obj("bo", false, false, leaf("b2", "number", false, false))}
	mid := []*prop{leaf("m0", "boolean", false, false), arr("ml", false, false, obj("", false, false, leaf("m1", "string", false, false)))}
	thing := []*prop{leaf("t0", "string", false, false), leaf("x", "string", false, false)}
	all := append(append(append([]*prop{}, thing...), base[0], base[1], base[3]), mid...)
	for o := 0; o < 4; o++ {
		fs := []*part{{file: "asset", all: []string{"base"}, one: []string{"thing"}}, {file: "base", props: base}, {file: "mid", props: mid}, {file: "thing", props: thing, all: []string{"mid"}}}
		k := &kase{name: fmt.Sprintf("shared%d", o), files: fs, runs: []string{"asset"}, typeName: "Thing", props: all, embed: o&1 != 0, flat: o&2 != 0, pointers: o == 3}
		if k.embed {
			k.runs = []string{"mid", "asset"}
		}
		k.inner = []string{"Base"}
		if k.embed {
			k.inner = append(k.inner, "Mid")
		}
		if o == 1 {
			k.inner[0] = "Root"
			k.types = map[string]string{"base": "Root"}
		}
		out = append(out, k)
	}
	same := []*prop{obj("a", true, false, obj("x", true, false, leaf("s", "string", true, false))), obj("b", true, false, obj("x", true, false, leaf("t", "integer", true, false)))}
	for o := 0; o < 2; o++ {
		out = append(out, &kase{name: fmt.Sprintf("both%d", o), files: object(append(leaves(), objectLists()...)), runs: []string{"thing"}, typeName: "Thing", props: append(leaves(), objectLists()...), flat: o&1 != 0, pointers: o&1 != 0, both: true})
	}
	was := []*prop{leaf("f00", "string", true, false), leaf("gone", "date", false, true), obj("a", false, false, leaf("a0", "integer", true, false), obj("old", false, false, leaf("o", "number", true, false))),
		arr("b", true, false, obj("", false, false, leaf("b0", "string", false, false))), leaf("d", "map", false, false)}
	now := [][]*prop{{leaf("f00", "integer", false, true), leaf("x", "string", true, false), leaf("d", "date", false, false)}, objectLists()}
	for o := 0; o < 4; o++ {
		out = append(out, &kase{name: fmt.Sprintf("again%d", o), before: object(was), files: object(now[o&1]), runs: []string{"thing"}, typeName: "Thing", props: now[o&1], flat: o&2 != 0, both: o&1 != 0})
	}
	out = append(out, &kase{name: "samename", files: object(same), runs: []string{"thing"}, typeName: "Thing", props: same, known: "same-record-name"})
	return out
}

// emitter writes the Go code of a case.
type emitter struct {
	k      *kase
	sb     strings.Builder
	n      int
	gokeys bool // the names in the expected values are those of the struct
}

func (e *emitter) key(name string) string {
	if e.gokeys {
		return e.goName(name)
	}
	return name
}

func (e *emitter) p(f string, a ...any) { fmt.Fprintf(&e.sb, f+"\n", a...) }

func (e *emitter) goName(name string) string {
	if r, ok := e.k.fields[name]; ok {
		name = r
	}
	return title(name)
}

func (e *emitter) fields(ps []*prop, v, w, path string) {
	for _, p := range ps {
		e.field(p, v+"."+e.goName(p.name), w, path+p.name)
	}
}

func (e *emitter) isPtr(p *prop, req bool) bool {
	return p.null || e.k.flat && e.k.pointers && !req
}

func (e *emitter) field(p *prop, v, w, path string) {
	switch p.kind {
	case "object":
		e.n++
		o, c := fmt.Sprintf("o%d", e.n), fmt.Sprintf("w%d", e.n)
		if e.isPtr(p, p.req) {
			e.p("if b.present(%q) {", path)
			e.p("%s = alloc(%s)", v, v)
			e.p("%s, %s := %s, record()", o, c, v)
		} else {
			e.p("{")
			e.p("%s, %s := &%s, record()", o, c, v)
		}
		e.p("_ = %s", o)
		e.fields(p.props, o, c, path+".")
		e.p("%s.add(%q, %s)", w, e.key(p.name), c)
		if e.isPtr(p, p.req) {
			e.p("} else {\n%s.add(%q, null())", w, e.key(p.name))
		}
		e.p("}")
	case "array":
		if p.items.kind != "object" {
			e.p("b.list(%q, &%s, %s, %q)", path, v, w, e.key(p.name))
			return
		}
		e.n++
		n, i, o, c, l := fmt.Sprintf("n%d", e.n), fmt.Sprintf("i%d", e.n), fmt.Sprintf("o%d", e.n), fmt.Sprintf("w%d", e.n), fmt.Sprintf("l%d", e.n)
		e.p("{")
		e.p("%s, %s := list(), b.length(%q)", l, n, path)
		e.p("for %s := 0; %s < %s; %s++ {", i, i, n, i)
		it := *p.items
		ptr := e.k.flat && e.isPtr(&it, p.req) // without NoNestedStructs the items are structs
		if ptr {
			e.p("%s = append(%s, nil)", v, v)
			e.p("if b.present(%q) {", path)
			e.p("%s[%s] = alloc(%s[%s])", v, i, v, i)
			e.p("%s, %s := %s[%s], record()", o, c, v, i)
		} else {
			e.p("%s = grow(%s)", v, v)
			e.p("%s, %s := &%s[%s], record()", o, c, v, i)
		}
		e.p("_ = %s", o)
		e.fields(p.items.props, o, c, path+".")
		e.p("%s.item(%s)", l, c)
		if ptr {
			e.p("} else {\n%s.item(null())\n}", l)
		}
		e.p("}")
		e.p("%s.add(%q, %s)", w, e.key(p.name), l)
		e.p("}")
	default:
		e.p("b.leaf(%q, &%s, %s, %q)", path, v, w, e.key(p.name))
	}
}

// nested tells whether a field holds a struct itself.
func (k *kase) nested() bool {
	e := &emitter{k: k}
	for _, p := range k.props {
		if p.kind == "object" && !e.isPtr(p, p.req) {
			return true
		}
	}
	return false
}

func (k *kase) code(base, forProp string) string {
	e := &emitter{k: k}
	e.p("package gencheck\n\nimport (")
	if forProp == "C39" {
		e.p("\"io\"\n\"time\"\n")
	}
	e.p("\"%s/%s\"\n)\n", base, k.name)
	if forProp == "C40" {
		e.gokeys = true
	}
	e.p("func init() {\ncases = append(cases, &tcase{name: %q, known: %q, nested: %t, inner: %#v, fill: fill_%s,", k.name, k.known, k.nested(), k.inner, k.name)
	if forProp == "C39" {
		e.p("bulk: func(w io.Writer, t time.Time, vs []written) error {\nch := make(chan *%s.%s)\nerrs := %s.%sBulkAvroWriter(w, t, ch)", k.name, k.typeName, k.name, k.typeName)
		e.p("for _, v := range vs {\np, _ := v.(*%s.%s)\nselect {\ncase err, open := <-errs:\nreturn early(err, open)\ncase ch <- p:\n}\n}\nclose(ch)\nreturn drain(errs)\n},", k.name, k.typeName)
		e.p("none: (*%s.%s)(nil),", k.name, k.typeName)
	} else {
		e.p("fresh: func() written { return &%s.%s{} },", k.name, k.typeName)
	}
	e.p("})\n}\n")
	e.p("func fill_%s(b *builder) (written, *val) {\nv, w := &%s.%s{}, record()", k.name, k.name, k.typeName)
	e.fields(k.props, "v", "w", "")
	e.p("return v, w\n}")
	return e.sb.String()
}

func main() {
	out := flag.String("out", "", "output directory")
	forProp := flag.String("prop", "C39", "property")
	base := flag.String("import", "", "import path of the output directory")
	flag.Parse()
	errs := map[string]string{}
	known := map[string]string{}
	must := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	for _, k := range cases(*forProp) {
		if k.known != "" && *forProp == "C39" {
			known[k.name] = k.known
		}
		dir := filepath.Join(*out, k.name)
		must(os.MkdirAll(dir, 0o755))
		in := filepath.Join(*out, "in_"+k.name)
		must(os.MkdirAll(in, 0o755))
		for _, f := range k.files {
			must(os.WriteFile(filepath.Join(in, f.file+".json"), []byte(f.text()), 0o644))
		}
		ins := []string{in}
		if k.before != nil {
			ins = []string{filepath.Join(in, "before"), in}
			must(os.MkdirAll(ins[0], 0o755))
			for _, f := range k.before {
				must(os.WriteFile(filepath.Join(ins[0], f.file+".json"), []byte(f.text()), 0o644))
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					errs[k.name] = fmt.Sprint("the generator panicked: ", r)
				}
			}()
			for i := 0; i < len(ins)*len(k.runs); i++ {
				r := k.runs[i%len(k.runs)]
				if err := generate.BuildStructsWithArgs(generate.BuildArgs{SchemaPath: filepath.Join(ins[i/len(k.runs)], r+".json"), OutputDir: dir, ImportPath: *base + "/" + k.name,
					GenerateAvro: k.both || *forProp == "C39", GenerateMessagePack: k.both || *forProp == "C40", NoNestedStructs: k.flat, Pointers: k.pointers, EmbedAllOf: k.embed,
					FieldNameMap: k.fields, StructNameMap: k.types}); err != nil {
					errs[k.name] = fmt.Sprint("the generator failed: ", err)
					return
				}
			}
		}()
		must(os.RemoveAll(in))
		if errs[k.name] != "" {
			must(os.RemoveAll(dir))
			continue
		}
		must(os.WriteFile(filepath.Join(*out, "zz_case_"+k.name+".go"), []byte(k.code(*base, *forProp)), 0o644))
	}
	var ks []string
	for k := range errs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b, err := json.Marshal(map[string]any{"errors": errs, "known": known})
	must(err)
	must(os.WriteFile(filepath.Join(*out, "result.json"), b, 0o644))
}
