package transform

import (
	"encoding/json"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vXML builds the XML transformer of a schema once.
func vXML(text string) *Transformer {
	return sym.Once("xml"+text, func() *Transformer {
		tr, err := NewXMLTransformer(vSchema(text), "id")
		if err != nil {
			panic("harness transformer: " + err.Error())
		}
		return tr
	})
}

func vXMLRun(schema, doc string) (any, error) {
	out, err := vXML(schema).Transform(json.RawMessage(doc))
	if err != nil {
		return nil, err
	}
	var v any
	sym.Assert(json.Unmarshal(out, &v) == nil, "the output is valid JSON")
	return v, nil
}

func vXFrom(typ, path, rest string) string {
	return `{"type":"` + typ + `",` + rest + `"transform":{"id":{"from":[{"xmlPath":"` + path + `"}]}}}`
}

// Verif_C13_text checks a text field.
// Bounds: 0 to 3 elements r/a of 0 to 2 bytes of ' ' to 'z' without markup (thorough: 4 elements), among other elements.
func Verif_C13_text() {
	doc := "<r>"
	want := vSet{"dflt", true}
	for i := sym.Choose("n", 4+sym.Tier()); i > 0; i-- {
		s := sym.StrIn("s", 2, ' ', 'z')
		for j := range s {
			sym.Assume(s[j] != '<' && s[j] != '&')
		}
		doc += "<a>" + s + "</a><b>no</b>"
		if want.v == "dflt" {
			want.v = s
		} else {
			want.v = want.v.(string) + " " + s
		}
	}
	out, err := vXMLRun(vObject(`"f":`+vXFrom("string", "/r/a", `"default":"dflt",`)), doc+"<c><a>no</a></c></r>")
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, want, "f")
}

// Verif_C13_many checks a text field, an array and an object with many elements.
// Bounds: 4 to 9 elements r/a with a symbolic letter each, or an element with a letter in each, among other elements.
func Verif_C13_many() {
	doc, want, letters := "<r>", "", []any{}
	inner := sym.Choose("inner", 2) == 1
	for i := 4 + sym.Choose("n", 6); i > 0; i-- {
		s := sym.StrN("s", 1, 'a', 'z')
		if letters = append(letters, s); want != "" {
			want += " "
		}
		want += s
		if inner {
			s = "<i>" + s + "</i>"
		}
		doc += "<a>" + s + "</a><b>no</b>"
	}
	path := "/r/a"
	if inner {
		path = "/r/a/i"
	}
	out, err := vXMLRun(vObject(`"f":`+vXFrom("string", path, "")+`,"l":`+strings.Replace(vXFrom("array", path, ""), `"type":"array",`, `"type":"array","items":`+vXFrom("string", ".", "")+`,`, 1)), doc+"</r>")
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, vSet{want, true}, "f")
	vListResult(out, err, letters, "l")
	sym.Reach("many")
}

// Verif_C13_scalar checks number, boolean and date-time fields.
// Bounds: 0 to 2 elements; the first a text that converts (two symbolic digits, true/false, seconds 0 to 59), an empty text or a letter;
// with a default or none.
func Verif_C13_scalar() {
	typ := vTypes[1+sym.Choose("type", 4)]
	dtext, dflt := vDefault(typ, []int{0, 2}[sym.Choose("default", 2)])
	n := sym.Choose("n", 3)
	want := dflt
	doc := "<r>"
	if n > 0 {
		t := ""
		switch kind := sym.Choose("kind", 3); {
		case kind == 0:
			switch typ {
			case "number", "integer":
				d := sym.Int("d", 10, 99)
				t = string([]byte{byte('0' + d/10), byte('0' + d%10)})
				want = vSet{d, true}
			case "boolean":
				b := sym.Bool("b")
				t = "false"
				if b {
					t = "true"
				}
				want = vSet{b, true}
			case "date-time":
				d := sym.StrN("sec", 1, '0', '5') + sym.StrN("sec2", 1, '0', '9')
				t = "2020-01-02T03:04:" + d + "Z"
				want = vSet{t, true}
			}
		case kind == 1 && typ == "boolean":
			want = vSet{false, true}
		case kind == 2:
			t = sym.StrN("bad", 1, 'g', 's')
			if n > 1 {
				sym.Skip() // several elements of which the first does not convert are not specified
			}
		}
		doc += "<a>" + t + "</a>"
	}
	if n > 1 {
		doc += "<a>" + sym.StrIn("second", 1, '0', '9') + "</a>"
	}
	text := `{"type":"` + typ + `"`
	if typ == "date-time" {
		text = `{"type":"string","format":"date-time"`
	}
	out, err := vXMLRun(vObject(`"f":`+text+dtext+`,"transform":{"id":{"from":[{"xmlPath":"/r/a"}]}}}`), doc+"</r>")
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, want, "f")
}

// Verif_C13_attr checks attributes and first, last and concatenate on XML paths.
// Bounds: three attributes, each absent or of 0 to 2 letters; the three methods with one delimiter.
func Verif_C13_attr() {
	m := []string{"first", "last", "concatenate"}[sym.Choose("method", 3)]
	doc := "<r><e"
	want := vSet{"none", true}
	found := false
	for _, k := range []string{"p", "q", "s"} {
		if sym.Choose(k+"has", 2) == 0 {
			continue
		}
		s := sym.StrIn(k, 2, 'a', 'z')
		doc += " " + k + "=\"" + s + "\""
		switch {
		case !found, m == "last":
			want.v = s
		case m == "concatenate":
			old := want.v.(string)
			if old != "" && s != "" {
				old += "-"
			}
			want.v = old + s
		}
		found = true
	}
	schema := vObject(`"f":{"type":"string","default":"none","transform":{"id":{"method":"` + m + `","methodOptions":{"concatenateDelimiter":"-"},"from":[{"xmlPath":"/r/e/@p"},{"xmlPath":"//e/@q"},{"xmlPath":"//@s"}]}}}`)
	out, err := vXMLRun(schema, doc+"/></r>")
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, want, "f")
}

// Verif_C13_array checks arrays of objects.
// Bounds: 0 to 3 elements with a symbolic letter in an attribute or none, and 0 to 2 child elements of one letter; items read the attribute, the
// children and a field with a default.
func Verif_C13_array() {
	schema := vObject(`"l":{"type":"array","transform":{"id":{"from":[{"xmlPath":"//i"}]}},"items":` + vObject(`"p":`+vXFrom("string", "@p", "")+`,"c":`+vXFrom("string", "c", `"default":"none",`)) + `}`)
	doc := "<r><x>"
	var want []any
	leaf := 0
	n := sym.Choose("n", 4)
	for i := 0; i < n; i++ {
		w := map[string]any{"c": "none"}
		doc += "<i"
		if sym.Choose("phas", 2) == 1 {
			p := sym.StrN("p", 1, 'a', 'z')
			doc += " p='" + p + "'"
			w["p"] = p
		}
		doc += ">"
		k := sym.Choose("children", 3)
		if k == 0 {
			leaf++
		}
		for ; k > 0; k-- {
			c := sym.StrN("c", 1, 'a', 'z')
			doc += "<c>" + c + "</c>"
			if w["c"] == "none" {
				w["c"] = c
			} else {
				w["c"] = w["c"].(string) + " " + c
			}
		}
		doc += "</i>"
		want = append(want, w)
		if i == 0 {
			doc += "</x>"
		}
	}
	if n == 0 {
		doc += "</x>"
	}
	out, err := vXMLRun(schema, doc+"</r>")
	sym.Assert(err == nil, "the transform succeeds")
	got, _ := vGet(out, "l")
	if n == 1 && leaf == 1 {
		sym.Reach("single leaf")
		sym.Finding("single-leaf", vIs(got, want), "a single element without child elements is an item like any other")
		return
	}
	vListResult(out, err, want, "l")
}

// Verif_C13_nested checks arrays in arrays and objects with their own node.
// Bounds: 1 to 2 outer elements with 0 or 2 inner ones with a child of one letter; an object with a node of its own, present or not.
func Verif_C13_nested() {
	schema := vObject(`"o":{"type":"object","transform":{"id":{"from":[{"xmlPath":"//o"}]}},"properties":{"t":` + vXFrom("string", "t", "") + `,"l":{"type":"array","transform":{"id":{"from":[{"xmlPath":"i"}]}},"items":` +
		vObject(`"m":{"type":"array","transform":{"id":{"from":[{"xmlPath":"j"}]}},"items":`+vObject(`"k":`+vXFrom("string", "k", ""))+`}`) + `}}}`)
	doc := "<r><t>no</t><i><j><k>no</k></j></i>"
	if sym.Choose("has", 2) == 0 {
		out, err := vXMLRun(schema, doc+"</r>")
		sym.Assert(err == nil, "the transform succeeds")
		vExpect(out, vSet{}, "o")
		return
	}
	t := sym.StrN("t", 1, 'a', 'z')
	doc += "<o><t>" + t + "</t>"
	var want []any
	for i := 1 + sym.Choose("outer", 2); i > 0; i-- {
		doc += "<i>"
		var w []any
		for j := 2 * sym.Choose("inner", 2); j > 0; j-- {
			k := sym.StrN("k", 1, 'a', 'z')
			doc += "<j><k>" + k + "</k></j>"
			w = append(w, map[string]any{"k": k})
		}
		if w != nil {
			want = append(want, map[string]any{"m": w})
		} else {
			doc += "<z/>"
		}
		doc += "</i>"
	}
	wo := map[string]any{"t": t}
	if want != nil {
		wo["l"] = want
	}
	out, err := vXMLRun(schema, doc+"</o></r>")
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, vSet{wo, true}, "o")
}

// Verif_C13_ops checks operations on XML texts.
// Bounds: durations of two symbolic digits, upper case of a letter, split of two letters, number texts, an array of a duration; one
// element. An array with a default without an element.
func Verif_C13_ops() {
	op := func(typ, op string) string {
		items := ""
		if typ == "array" {
			items = `"items":{"type":"string"},`
		}
		return vObject(`"f":{"type":"` + typ + `",` + items + `"transform":{"id":{"from":[{"xmlPath":"/r/a","operations":[` + op + `]}]}}}`)
	}
	var schema, text string
	var want any
	two := func(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }
	switch sym.Choose("op", 7) {
	case 0:
		m, s := sym.Int("m", 0, 99), sym.Int("s", 0, 99)
		schema, text, want = op("integer", `{"type":"duration"}`), two(m)+":"+two(s), m*60+s
	case 1:
		s := sym.StrN("s", 1, 'a', 'z')
		schema, text, want = op("string", `{"type":"changeCase","args":{"to":"upper"}}`), s, string([]byte{s[0] - 32})
	case 2:
		a, b := sym.StrN("a", 1, 'a', 'z'), sym.StrN("b", 1, 'a', 'z')
		schema, text, want = op("array", `{"type":"split","args":{"on":","}}`), a+","+b, []any{a, b}
	case 3:
		b := sym.Bool("b")
		text = "false"
		if b {
			text = "true"
		}
		schema, want = op("boolean", `{"type":"inverse"}`), !b
	case 4:
		text = sym.StrN("s", 1, 'g', 's')
		schema, want = op("boolean", `{"type":"valueExists"}`), true
	case 5:
		m, s := sym.Int("m", 0, 99), sym.Int("s", 0, 99)
		schema, text, want = op("array", `{"type":"duration"}`), two(m)+":"+two(s), []any{m*60 + s}
	case 6:
		schema = vObject(`"f":{"type":"array","default":["x",2],"items":{"type":"string"},"transform":{"id":{"from":[{"xmlPath":"/r/b"}]}}}`)
		want = []any{"x", 2}
	}
	out, err := vXMLRun(schema, "<r><a>"+text+"</a></r>")
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, vSet{want, true}, "f")
}

// Verif_C13_raw checks that no document makes a transform panic.
// Bounds: documents of 0 to 5 characters (thorough: 6) out of the markup characters and one letter; documents with one symbolic character at any place of
// a small document; fields with paths that are missing, malformed or only for JSON.
func Verif_C13_raw() {
	path := []string{"//a", "/a/b", "//a[", "", ".", "@a", "//a/text()", "*"}[sym.Choose("path", 8)]
	kind := []string{vXFrom("string", path, ""), vXFrom("number", path, ""), `{"type":"array","transform":{"id":{"from":[{"xmlPath":"` + path + `"}]}},"items":` + vObject(`"x":`+vXFrom("string", path, "")) + `}`,
		`{"type":"object","transform":{"id":{"from":[{"xmlPath":"` + path + `"}]}},"properties":{"x":` + vXFrom("boolean", path, "") + `}}`}[sym.Choose("kind", 4)]
	var doc string
	if sym.Choose("tiny", 2) == 1 {
		for i := sym.Choose("len", 6+sym.Tier()); i > 0; i-- {
			doc += string([]byte{"<>/a"[sym.Choose("c", 4)]})
		}
	} else {
		doc = `<a b="1">x<b>1</b></a>`
		i := sym.Choose("at", len(doc))
		doc = doc[:i] + sym.StrN("c", 1, ' ', '~') + doc[i+1:]
	}
	out, err := vXML(vObject(`"f":` + kind)).Transform(json.RawMessage(doc))
	if err == nil {
		var v any
		sym.Assert(json.Unmarshal(out, &v) == nil, "the output is valid JSON")
		sym.Reach("valid")
	} else {
		sym.Reach("error")
	}
}

// Verif_C13_history checks that an XML transformer has no memory.
// Bounds: an object default and an array default with fields; three documents in which each field is absent or has one letter.
func Verif_C13_history() {
	schema := vObject(`"o":{"type":"object","default":{"q":"d"},"properties":{"a":` + vXFrom("string", "//a", "") + `,"b":` + vXFrom("string", "//b", "") + `}},"l":{"type":"array","default":["x"],"transform":{"id":{"method":"last","from":[{"xmlPath":"//c"},{"xmlPath":"//d"}]}},"items":{"type":"string"}}`)
	doc := func(n string) string {
		s := "<r>"
		for _, k := range []string{"a", "b", "c", "d"} {
			if sym.Choose(n+k+"has", 2) == 1 {
				s += "<" + k + ">" + sym.StrN(n+k, 1, 'a', 'z') + "</" + k + ">"
			}
		}
		return s + "</r>"
	}
	used := vXML(schema)
	fresh := sym.Once("fresh"+schema, func() *Transformer {
		tr, err := NewXMLTransformer(vSchema(schema), "id")
		if err != nil {
			panic(err)
		}
		return tr
	})
	used.Transform(json.RawMessage(doc("x")))
	y := json.RawMessage(doc("y"))
	got, err1 := used.Transform(y)
	want, err2 := fresh.Transform(y)
	sym.Assert(err1 == nil && err2 == nil, "the transforms succeed")
	sym.Assert(string(got) == string(want), "the output does not depend on earlier documents")
	sym.Reach("end")
}

// Verif_C13_objects checks objects with a source or a default of their own.
// Bounds: an object at the root or within another object, with a source //o or none, a default with two members or none, and
// two fields of texts, one with a default; 0 to 2 elements o, each with any of the two fields of up to one letter and another
// one. An empty element o, which is no value, is not in it.
func Verif_C13_objects() {
	own := sym.Choose("source", 2) == 1
	dflt := sym.Choose("default", 2) == 1
	inner := `{"type":"object",`
	if own {
		inner += `"transform":{"id":{"from":[{"xmlPath":"//o"}]}},`
	}
	at := ""
	if !own {
		at = "//o[1]/"
	}
	if dflt {
		inner += `"default":{"q":"d","a":"x"},`
	}
	inner += `"properties":{"a":` + vXFrom("string", at+"a", "") + `,"b":` + vXFrom("string", at+"b", `"default":"y",`) + `}}`
	path := []any{"o"}
	schema := vObject(`"o":` + inner)
	if sym.Choose("nested", 2) == 1 {
		schema = vObject(`"n":` + vObject(`"o":`+inner))
		path = []any{"n", "o"}
	}
	n := sym.Choose("n", 3)
	want := map[string]any{}
	if dflt {
		want["q"], want["a"] = "d", "x"
	}
	if n > 0 || !own {
		want["b"] = "y"
	}
	doc := "<r>"
	for i := range n {
		doc += "<o><z/>"
		for _, k := range []string{"a", "b"} {
			if sym.Choose(k+"has", 2) == 1 {
				s := sym.StrIn(k, 1, 'a', 'z')
				doc += "<" + k + ">" + s + "</" + k + ">"
				if i == 0 {
					want[k] = s
				}
			}
		}
		doc += "</o>"
	}
	out, err := vXMLRun(schema, doc+"<a>no</a></r>")
	sym.Assert(err == nil, "the transform succeeds")
	vExpect(out, vSet{want, len(want) > 0}, path...)
}
