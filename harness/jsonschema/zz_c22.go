package jsonschema

import (
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vFiles are decoded files by path.
type vFiles map[string]any

// vRefs expands the references of a value as the reference implementation: the target takes the place of the reference, with the other
// members of the referencing object on top. ok is false if a target is missing.
func vRefs(fs vFiles, file string, v any, depth int) (out any, ok bool) {
	if depth > 12 {
		panic("harness: references too deep")
	}
	switch x := v.(type) {
	case []any:
		l := []any{}
		for _, e := range x {
			n, ok := vRefs(fs, file, e, depth)
			if !ok {
				return nil, false
			}
			l = append(l, n)
		}
		return l, true
	case map[string]any:
		m := map[string]any{}
		if ref, isRef := x["$ref"].(string); isRef {
			tfile, tpath := file, ""
			if i := strings.Index(ref, "#"); i >= 0 {
				tpath = strings.Trim(ref[i+1:], "/")
				if i > 0 {
					tfile = vJoin(file, ref[:i])
				}
			} else {
				tfile = vJoin(file, ref)
			}
			t, have := fs[tfile]
			if !have {
				return nil, false
			}
			if tpath != "" {
				for _, k := range strings.Split(tpath, "/") {
					k = vUnescape(k)
					switch tt := t.(type) {
					case map[string]any:
						if t, have = tt[k]; !have {
							return nil, false
						}
					case []any:
						i := strings.Index("0123456789", k)
						if len(k) != 1 || i < 0 || i >= len(tt) {
							return nil, false
						}
						t = tt[i]
					default:
						return nil, false
					}
				}
			}
			e, ok := vRefs(fs, tfile, t, depth+1)
			if !ok {
				return nil, false
			}
			for k, y := range e.(map[string]any) {
				m[k] = y
			}
			m["fromRef"] = ref
		}
		for k, y := range x {
			if k == "$ref" {
				continue
			}
			n, ok := vRefs(fs, file, y, depth)
			if !ok {
				return nil, false
			}
			m[k] = n
		}
		return m, true
	}
	return v, true
}

// vUnescape gives the name that a part of a JSON pointer in a URI fragment stands for.
func vUnescape(k string) string {
	out := ""
	for i := 0; i < len(k); i++ {
		switch {
		case k[i] == '%' && i+2 < len(k):
			out += string([]byte{byte(strings.IndexByte("0123456789ABCDEF", k[i+1])<<4 | strings.IndexByte("0123456789ABCDEF", k[i+2]))})
			i += 2
		default:
			out += k[i : i+1]
		}
	}
	k, out = out, ""
	for i := 0; i < len(k); i++ {
		switch {
		case k[i] == '~' && i+1 < len(k) && k[i+1] == '1':
			out += "/"
			i++
		case k[i] == '~' && i+1 < len(k) && k[i+1] == '0':
			out += "~"
			i++
		default:
			out += k[i : i+1]
		}
	}
	return out
}

// vJoin resolves a relative name against the file it stands in.
func vJoin(file, rel string) string {
	dir := file[:strings.LastIndex(file, "/")+1]
	for {
		switch {
		case strings.HasPrefix(rel, "./"):
			rel = rel[2:]
		case strings.HasPrefix(rel, "../"):
			rel = rel[3:]
			dir = strings.TrimSuffix(dir, "/")
			dir = dir[:strings.LastIndex(dir, "/")+1]
		default:
			return dir + rel
		}
	}
}

// vPlain brings the notations of a type into one form and drops what loading a file adds: additionalProperties and the fromRef members.
func vPlain(v any, refs bool) any {
	switch x := v.(type) {
	case []any:
		l := []any{}
		for _, e := range x {
			l = append(l, vPlain(e, refs))
		}
		return l
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			switch {
			case k == "type":
				if s, ok := e.(string); ok {
					e = []any{s}
				}
				if e != nil {
					m[k] = e
				}
			case k == "additionalProperties" && e == true, k == "fromRef" && !refs:
			default:
				m[k] = vPlain(e, refs)
			}
		}
		return m
	}
	return v
}

// vNoRefs tells whether no reference is left.
func vNoRefs(v any) bool {
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			if !vNoRefs(e) {
				return false
			}
		}
	case map[string]any:
		if _, ok := x["$ref"].(string); ok {
			return false
		}
		for _, e := range x {
			if !vNoRefs(e) {
				return false
			}
		}
	}
	return true
}

// vDeref writes the files, dereferences the first and compares.
func vDeref(texts [][2]string, flatten bool) { vDerefKnown(texts, flatten, "") }

// vDerefKnown is vDeref where a wrong result is a finding.
func vDerefKnown(texts [][2]string, flatten bool, finding string) {
	d := sym.TempDir()
	fs := vFiles{}
	for _, t := range texts {
		vFile(d, t[0], t[1])
		fs[d+"/"+t[0]] = vDecode(t[1])
	}
	root := d + "/" + texts[0][0]
	want, ok := vRefs(fs, root, fs[root], 0)
	got, err := dereference(root, []byte(texts[0][1]), "", flatten)
	if !ok {
		sym.Assert(err != nil, "a reference to something that does not exist is an error")
		sym.Reach("missing")
		return
	}
	if finding != "" {
		sym.Finding(finding, err == nil && json.Valid(got) && sym.Equal(vPlain(vDecode(string(got)), true), vPlain(want, true)), "every reference is replaced by what it points to and nothing else changes")
		sym.Reach("known")
		return
	}
	if err != nil {
		sym.Fail("references to something that exists are resolved: " + err.Error())
	}
	tree := vDecode(string(got))
	sym.Assert(vNoRefs(tree), "no reference is left")
	sym.Assert(sym.Equal(vPlain(tree, true), vPlain(want, true)), "every reference is replaced by what it points to and nothing else changes")
	sym.Observe("got", string(got))
	sym.Reach("end")
}

var vTargets = []string{
	`#/definitions/plain`,
	`#/definitions/nested`,
	`f.json`,
	`./f.json`,
	`f.json#/definitions/e`,
	`sub/g.json`,
	`#/properties/own`,
	`sub/g.json#/properties/up`,
	`#/definitions/none`,
	`none.json`,
	`f.json#/definitions/none`,
}

const vDefs = `"definitions":{"plain":{"type":"string","default":"dp","description":"plain"},"nested":{"type":"object","properties":{"n":{"$ref":"#/definitions/plain"},"k":{"$ref":"f.json"}}}}`

// vOthers are the other files of C22.
func vOthers(mark string) [][2]string {
	return [][2]string{
		{"f.json", `{"type":["null","string"],"description":"` + mark + `","format":"date-time","default":"df","transform":{"id":{"from":[{"jsonPath":"$.x"}]}},"definitions":{"e":{"type":"number","description":"e"}}}`},
		{"sub/g.json", `{"type":"object","required":["up"],"properties":{"up":{"$ref":"../f.json"},"near":{"$ref":"h.json"},"loc":{"$ref":"#/definitions/q"}},"definitions":{"q":{"type":"boolean","enum":[true]}}}`},
		{"sub/h.json", `{"type":"array","items":{"$ref":"./../f.json#/definitions/e"},"minItems":2}`},
		{"h.json", `{"type":"integer","description":"the wrong h"}`},
	}
}

// Verif_C22_places checks a reference of each kind at each place.
// Bounds: each of 11 references (same document, other file, part of another file, files that refer to files in other directories, three
// missing ones) at one of seven places (property, property of an object, item of an array, item of an array of arrays, inside a
// definition, in a list, among other values in a list), with a symbolic letter in the referred file.
func Verif_C22_places() {
	ref := `{"$ref":"` + vTargets[sym.Choose("target", len(vTargets))] + `"}`
	props := []string{
		`"a":` + ref,
		`"o":{"type":"object","properties":{"z":{"type":"string"},"b":` + ref + `}}`,
		`"l":{"type":"array","items":` + ref + `}`,
		`"l":{"type":"array","items":{"type":"array","items":` + ref + `}}`,
		`"a":{"$ref":"#/definitions/more"}`,
		`"a":{"type":"object","properties":{},"anyOf":[{"type":"null"},` + ref + `]}`,
		`"a":{"type":"object","properties":{},"anyOf":[true,"x",{"type":"null"},` + ref + `,1,null,` + ref + `]}`,
	}
	text := `{"type":"object","properties":{"own":{"type":"number","description":"own"},` + props[sym.Choose("place", len(props))] + `},` +
		strings.Replace(vDefs, `"definitions":{`, `"definitions":{"more":{"type":"object","properties":{"m":`+ref+`}},`, 1) + `}`
	vDeref(append([][2]string{{"s.json", text}}, vOthers(sym.StrN("mark", 1, 'a', 'z'))...), sym.Choose("flatten", 2) == 1)
}

// Verif_C22_pairs checks documents with several references.
// Bounds: two references (thorough: three) of the eight that exist, at two places that may share parents, in both orders.
func Verif_C22_pairs() {
	good := vTargets[:8]
	r1 := `{"$ref":"` + good[sym.Choose("t1", len(good))] + `"}`
	r2 := `{"$ref":"` + good[sym.Choose("t2", len(good))] + `"}`
	r3 := `{"type":"string"}`
	if sym.Tier() == 1 {
		r3 = `{"$ref":"` + good[sym.Choose("t3", len(good))] + `"}`
	}
	text := []string{
		`{"type":"object","properties":{"own":{"type":"number"},"a":` + r1 + `,"b":` + r2 + `,"c":` + r3 + `},` + vDefs + `}`,
		`{"type":"object",` + vDefs + `,"properties":{"o":{"type":"object","properties":{"a":` + r1 + `,"l":{"type":"array","items":` + r2 + `}}},"own":` + `{"type":"object","properties":{"c":` + r3 + `}}}}`,
		`{"type":"object",` + vDefs + `,"anyOf":[` + r1 + `,{"type":"object","properties":{"q":` + r3 + `}},` + r2 + `],"properties":{"own":{"type":"number"}}}`,
	}[sym.Choose("shape", 3)]
	vDeref(append([][2]string{{"s.json", text}}, vOthers("m")...), true)
}

// Verif_C22_siblings checks references with other members beside them.
// Bounds: a reference that exists with one or two of six members before or after it: texts with every escape of JSON or two symbolic
// bytes, objects, lists, and members the target has too.
func Verif_C22_siblings() {
	sib := func(name string) string {
		switch sym.Choose(name, 7) {
		case 0:
			return `"description":"` + sym.StrN("d", 2, ' ', '!') + sym.StrN("e", 1, '#', '[') + `"`
		case 1:
			return `"description":"q\"b\\s\/\b\f\n\r\té\u00e9\ud83d\ude00"`
		case 2:
			return `"default":` + []string{`""`, `null`, `{"x":"\"y"}`, `[1,"a\\b"]`, `false`, `1.5e3`}[sym.Choose("dflt", 6)]
		case 3:
			return `"format":"date"`
		case 4:
			return `"transform":{"id":{"from":[{"jsonPath":"$.y","operations":[{"type":"split","args":{"on":"\""}}]}]}}`
		case 5:
			return `"definitions":{"z":{"type":"string"}}`
		}
		return `"required":["up"]`
	}
	ref := `"$ref":"` + []string{`#/definitions/plain`, `f.json`, `sub/g.json`}[sym.Choose("target", 3)] + `"`
	obj := ""
	switch sym.Choose("order", 3) {
	case 0:
		obj = `{` + ref + `,` + sib("s1") + `}`
	case 1:
		obj = `{` + sib("s1") + `,` + ref + `}`
	case 2:
		a := sib("s1")
		b := `"title":"` + []string{`t`, `\"`}[sym.Choose("title", 2)] + `"`
		obj = `{` + a + `,` + ref + `,` + b + `}`
	}
	vDeref(append([][2]string{{"s.json", `{"type":"object","properties":{"a":` + obj + `},` + vDefs + `}`}}, vOthers("m")...), true)
}

// Verif_C22_root checks a document that is a reference as a whole, and one that contains such a file.
// Bounds: references at the root to another file or into it, with or without other members, loaded directly or by a property of a file.
func Verif_C22_root() {
	ref := []string{`f.json`, `sub/g.json`, `f.json#/definitions/e`}[sym.Choose("target", 3)]
	extra := []string{``, `,"description":"mine"`, `,"title":"t"`}[sym.Choose("extra", 3)]
	whole := `{"$ref":"` + ref + `"` + extra + `}`
	if sym.Choose("by", 2) == 0 {
		vDerefKnown(append([][2]string{{"s.json", whole}}, vOthers("m")...), true, "root-reference")
	} else {
		vDerefKnown(append([][2]string{{"s.json", `{"type":"object","properties":{"p":{"$ref":"w.json"}}}`}, {"w.json", whole}}, vOthers("m")...), true, "root-reference")
	}
}

// Verif_C22_keywords checks that a file that is referred to keeps every keyword.
// Bounds: a file with one or two of nine keywords at its root, most of which the type Schema does not know, with a text of two
// symbolic letters, a number, a list or an object; referred to as a whole, by a property or an item, or through another file.
func Verif_C22_keywords() {
	kw := []string{"title", "default", "transform", "enum", "examples", "x-enum", "const", "x-own", "y"}
	member := func(name string) string {
		k := kw[sym.Choose(name, len(kw))]
		switch {
		case k == "transform":
			return `"transform":{"id":{"from":[{"jsonPath":"$.x"}]}}`
		case k == "title":
			return `"title":"` + sym.StrN(name+"mark", 2, 'a', 'z') + `"`
		case k == "enum" || k == "examples":
			return `"` + k + `":["` + sym.StrN(name+"mark", 2, 'a', 'z') + `",1,null]`
		}
		return `"` + k + `":` + []string{`"` + sym.StrN(name+"mark", 2, 'a', 'z') + `"`, `12`, `{"a":[{}]}`}[sym.Choose(name+"value", 3)]
	}
	text := `{"type":"string",` + member("k")
	if sym.Choose("two", 2) == 1 {
		text = `{` + member("j") + `,"type":"string",` + `"format":"date-time","description":"d"`
	}
	at := []string{`"a":{"$ref":"k.json"}`, `"l":{"type":"array","items":{"$ref":"k.json"}}`, `"a":{"$ref":"o.json"}`}[sym.Choose("at", 3)]
	vDeref([][2]string{{"s.json", `{"type":"object","properties":{` + at + `}}`}, {"k.json", text + `}`},
		{"o.json", `{"type":"object","title":"o","properties":{"b":{"$ref":"k.json"}}}`}}, true)
}

// Verif_C22_keys checks names beside a reference that JSON escapes.
// Bounds: three names with an escaped quote, backslash or tab beside each of three references, in both orders.
func Verif_C22_keys() {
	ref := `"$ref":"` + []string{`#/definitions/plain`, `f.json`, `sub/g.json`}[sym.Choose("target", 3)] + `"`
	key := `"` + []string{`x\"y`, `x\\y`, `\t`}[sym.Choose("key", 3)] + `":"k"`
	obj := `{` + ref + `,` + key + `}`
	if sym.Choose("order", 2) == 1 {
		obj = `{` + key + `,` + ref + `}`
	}
	vDerefKnown(append([][2]string{{"s.json", `{"type":"object","properties":{"a":` + obj + `},` + vDefs + `}`}}, vOthers("m")...), true, "escaped-name")
}

// Verif_C22_names checks references whose names are symbolic.
// Bounds: a document with two definitions and a property, each with a symbolic name of one letter (thorough: two), and a reference with
// a symbolic name of that length to a definition, a property or a part of another file.
func Verif_C22_names() {
	n := 1 + sym.Tier()
	d1, d2, pr, r := sym.StrN("d1", n, 'a', 'e'), sym.StrN("d2", n, 'a', 'e'), sym.StrN("p", n, 'a', 'e'), sym.StrN("r", n, 'a', 'e')
	sym.Assume(d1 != d2)
	sym.Assume(pr != "r")
	ref := []string{`#/definitions/`, `#/properties/`, `f.json#/definitions/`, `s.json#/definitions/`}[sym.Choose("kind", 4)] + r
	text := `{"type":"object","properties":{"` + pr + `":{"type":"string","description":"p"},"r":{"$ref":"` + ref + `"}},"definitions":{"` + d1 + `":{"type":"number"},"` + d2 + `":{"type":"object","properties":{"x":{"type":"null"}}}}}`
	vDeref([][2]string{{"s.json", text}, {"f.json", `{"type":"object","definitions":{"` + d2 + `":{"type":"boolean"},"` + d1 + `":{"type":"integer","title":"t"}}}`}}, true)
}

// Verif_C22_pointers checks references with escaped names and with indices of lists.
// Bounds: a definition with a symbolic name of two (thorough: three) characters out of the special ones of JSON pointers and URIs, digits and
// a letter, referred to with every necessary escape, from the same or another file, directly or as an element (one of three, or missing)
// of its allOf or of a list of lists.
func Verif_C22_pointers() {
	name := sym.StrN("name", 2+sym.Tier(), ' ', '~')
	esc := ""
	for i := 0; i < len(name); i++ {
		sym.Assume(strings.IndexByte("~/% 01a[", name[i]) >= 0)
		switch name[i] {
		case '~':
			esc += "~0"
		case '/':
			esc += []string{"~1", "%7E1"}[sym.Choose("slash", 2)]
		case '%':
			esc += "%25"
		case ' ':
			esc += "%20"
		case '[':
			esc += []string{"[", "%5B"}[sym.Choose("bracket", 2)]
		default:
			esc += string([]byte{name[i]})
		}
	}
	l := sym.StrN("l", 1, 'a', 'z')
	def := `"definitions":{"0":{"type":"null"},"` + name + `":{"type":"object","description":"` + l + `","allOf":[{"type":"string"},{"type":"object","properties":{"0":{"type":"number"}}},{"items":{"enum":[[{"const":"` + l + `"}]]}}]}}`
	ref := []string{"#", "f.json#", "s.json#"}[sym.Choose("in", 3)] + "/definitions/" + esc +
		[]string{"", "/allOf/0", "/allOf/1/properties/0", "/allOf/2/items", "/allOf/2/items/enum/0/0", "/allOf/3", "/allOf/1/0"}[sym.Choose("rest", 7)]
	text := `{"type":"object","properties":{"r":{"$ref":"` + ref + `"}},` + def + `}`
	vDeref([][2]string{{"s.json", text}, {"f.json", `{"type":"object",` + def + `}`}}, true)
}

// Verif_C22_chain checks chains of references in any order of definitions.
// Bounds: four definitions that refer to each other in a chain of one to three links, in each rotation, used from one or two properties.
func Verif_C22_chain() {
	n := 1 + sym.Choose("links", 3)
	defs := []string{}
	for i := 0; i < 4; i++ {
		if i < n {
			defs = append(defs, `"d`+string(rune('0'+i))+`":{"$ref":"#/definitions/d`+string(rune('1'+i))+`"}`)
		} else {
			defs = append(defs, `"d`+string(rune('0'+i))+`":{"type":"string","description":"`+sym.StrN("d", 1, 'a', 'z')+`"}`)
		}
	}
	rot := sym.Choose("rot", 4)
	defs = append(append([]string{}, defs[rot:]...), defs[:rot]...)
	d := `"definitions":{` + strings.Join(defs, ",") + `}`
	p := `"properties":{"a":{"$ref":"#/definitions/d0"},"b":{"$ref":"#/definitions/d` + string(rune('0'+sym.Choose("b", 4))) + `"}}`
	text := `{"type":"object",` + d + `,` + p + `}`
	if sym.Choose("order", 2) == 1 {
		text = `{"type":"object",` + p + `,` + d + `}`
	}
	vDerefChain(text)
}

// vDerefChain is vDeref without the fromRef members, of which a chain of references keeps one.
func vDerefChain(text string) {
	d := sym.TempDir()
	root := vFile(d, "s.json", text)
	fs := vFiles{root: vDecode(text)}
	want, ok := vRefs(fs, root, fs[root], 0)
	got, err := dereference(root, []byte(text), "", true)
	sym.Assert(ok && err == nil, "a chain of references is resolved")
	tree := vDecode(string(got))
	sym.Assert(vNoRefs(tree), "no reference is left")
	sym.Assert(sym.Equal(vPlain(tree, false), vPlain(want, false)), "every reference is replaced by what it points to and nothing else changes")
	sym.Reach("end")
}

// vWeb answers every request itself.
type vWeb map[string]vPage

type vPage struct {
	status int
	body   string
}

func (w vWeb) RoundTrip(r *http.Request) (*http.Response, error) {
	p, ok := w[r.URL.String()]
	if !ok {
		return nil, errors.New("no such host")
	}
	return &http.Response{StatusCode: p.status, Status: http.StatusText(p.status), ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Body: io.NopCloser(strings.NewReader(p.body)), ContentLength: int64(len(p.body)), Request: r}, nil
}

// Verif_C22_web checks references to documents of the web.
// Bounds: a reference to a document or a part of it, alone or with a member beside it, at a property, an item or in a list; the server
// answers with the document, which has two symbolic letters, with one of three errors (whose page may be a JSON object) or not at all.
// Assumes: the document has no references of its own.
func Verif_C22_web() {
	doc := `{"type":["null","string"],"description":"` + sym.StrN("mark", 2, 'a', 'z') + `","default":"df","definitions":{"e":{"type":"number","description":"e\"\\"}}}`
	const at = "http://schemas.test/dir/doc.json"
	frag := []string{``, `#/definitions/e`, `#/definitions/none`, `#`}[sym.Choose("part", 4)]
	page := vPage{200, doc}
	served := true
	switch sym.Choose("answer", 5) {
	case 1:
		page = vPage{404, `{"type":"object","definitions":{"e":{"type":"string"}}}`}
	case 2:
		page = vPage{503, doc}
	case 3:
		page = vPage{404, `<html>not found</html>`}
	case 4:
		served = false
	}
	ref := `{"$ref":"` + at + frag + `"` + []string{``, `,"description":"mine"`}[sym.Choose("beside", 2)] + `}`
	text := `{"type":"object","properties":{"own":{"type":"number"},` + []string{
		`"a":` + ref,
		`"l":{"type":"array","items":` + ref + `}`,
		`"a":{"type":"object","properties":{},"anyOf":[{"type":"null"},` + ref + `]}`,
	}[sym.Choose("place", 3)] + `}}`

	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	http.DefaultTransport = vWeb{}
	if served {
		http.DefaultTransport = vWeb{at: page}
	}
	root := "/nowhere/s.json"
	got, err := dereference(root, []byte(text), "", true)
	if !served || page.status != 200 || strings.HasSuffix(frag, "none") {
		sym.Assert(err != nil, "a reference to something that does not exist is an error")
		sym.Reach("missing")
		return
	}
	sym.Assert(err == nil, "references to something that exists are resolved")
	fs := vFiles{root: vDecode(strings.ReplaceAll(text, at, "doc.json")), "/nowhere/doc.json": vDecode(doc)}
	want, _ := vRefs(fs, root, fs[root], 0)
	tree := vDecode(strings.ReplaceAll(string(got), at, "doc.json"))
	sym.Assert(vNoRefs(tree), "no reference is left")
	sym.Assert(sym.Equal(vPlain(tree, true), vPlain(want, true)), "every reference is replaced by what it points to and nothing else changes")
	sym.Observe("got", string(got))
	sym.Reach("end")
}

// Verif_C22_webrefs checks documents of the web that have references of their own.
// Bounds: a reference inside the document to a part of it or to another document beside it, used as a whole or in part.
func Verif_C22_webrefs() {
	inner := []string{`#/definitions/e`, `other.json`}[sym.Choose("inner", 2)]
	doc := `{"type":"object","properties":{"z":{"$ref":"` + inner + `"}},"definitions":{"e":{"type":"number"}}}`
	other := `{"type":"boolean","description":"` + sym.StrN("mark", 1, 'a', 'z') + `"}`
	const at = "http://schemas.test/dir/"
	frag := []string{``, `#/properties/z`}[sym.Choose("part", 2)]
	text := `{"type":"object","properties":{"a":{"$ref":"` + at + `doc.json` + frag + `"}},"definitions":{"e":{"type":"string"}}}`
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	http.DefaultTransport = vWeb{at + "doc.json": {200, doc}, at + "other.json": {200, other}}
	root := "/nowhere/s.json"
	got, err := dereference(root, []byte(text), "", true)
	fs := vFiles{root: vDecode(strings.ReplaceAll(text, at, "")), "/nowhere/doc.json": vDecode(doc), "/nowhere/other.json": vDecode(other)}
	want, _ := vRefs(fs, root, fs[root], 0)
	sym.Finding("web-document-references", err == nil && json.Valid(got) && sym.Equal(vPlain(vDecode(strings.ReplaceAll(string(got), at, "")), false), vPlain(want, false)),
		"every reference is replaced by what it points to and nothing else changes")
	sym.Reach("end")
}
