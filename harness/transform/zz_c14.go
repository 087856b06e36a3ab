package transform

import (
	"encoding/json"
	"errors"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// gateValidator answers as told and keeps what it was asked.
type gateValidator struct {
	valid bool
	err   error
	asked []string
}

func (g *gateValidator) Validate(raw json.RawMessage) (bool, error) {
	g.asked = append(g.asked, string(raw))
	return g.valid, g.err
}

var errGate = errors.New("gate")

// vGated builds a transformer with the given validator.
func vGated(text string, xml bool, g *gateValidator) *Transformer {
	s := vSchema(text)
	s.Validator = g
	build := NewTransformer
	if xml {
		build = NewXMLTransformer
	}
	tr, err := build(s, "id")
	if err != nil {
		panic("harness transformer: " + err.Error())
	}
	return tr
}

// vGate drives one transformer with one input and every answer of the validator.
func vGate(text string, xml bool, raw []byte) {
	g := &gateValidator{valid: sym.Choose("valid", 2) == 1}
	if sym.Choose("err", 2) == 1 {
		g.err = errGate
	}
	plain, plainErr := vGated(text, xml, g).TransformNoValidation(raw)
	sym.Assert(len(g.asked) == 0, "a transform without validation does not consult the validator")
	out, err := vGated(text, xml, g).Transform(raw)
	if plainErr != nil {
		sym.Assert(err != nil && len(out) == 0, "an input that cannot be transformed gives an error and no document")
		sym.Assert(len(plain) == 0, "an input that cannot be transformed gives no document without validation either")
		sym.Reach("error")
		return
	}
	sym.Assert(len(g.asked) > 0 || err != nil, "no document is returned without asking the validator")
	for _, a := range g.asked {
		sym.Assert(a == string(plain), "the validator is asked about the document itself")
	}
	if g.valid && g.err == nil {
		sym.Assert(err == nil, "a document which the validator accepts is returned")
		sym.Assert(string(out) == string(plain), "the returned document is the one which was validated")
		sym.Reach("accepted")
		return
	}
	sym.Assert(err != nil, "a document which the validator does not accept is an error")
	sym.Assert(len(out) == 0, "a document which the validator does not accept is not returned")
	sym.Reach("rejected")
}

// Verif_C14_json checks the gate for JSON.
// Bounds: the schemas of the zoo, inputs with each of the keys a and b absent, a scalar or a list, and every answer of the
// validator: accept or reject, with or without an error.
func Verif_C14_json() {
	k := sym.Choose("schema", len(vZoo))
	in := map[string]any{}
	for _, key := range []string{"a", "b"} {
		switch sym.Choose(key, 4+sym.Tier()) {
		case 1:
			in[key] = sym.StrN("s", 1, '0', 'z')
		case 2:
			in[key] = sym.Int("n", -9, 9)
		case 3:
			in[key] = []any{map[string]any{"a": sym.Int("n", -9, 9), "b": "x"}}
		case 4:
			in[key] = map[string]any{"a": sym.StrN("s", 1, '0', 'z'), "b": sym.Bool("b")}
		}
	}
	raw, err := json.Marshal(in)
	if err != nil {
		panic("harness input")
	}
	vGate(vZoo[k], false, raw)
}

// Verif_C14_raw checks the gate for texts which may not be JSON.
// Bounds: one schema, every text of up to 3 bytes of ASCII (thorough: 4), every answer of the validator.
func Verif_C14_raw() {
	n := sym.Choose("n", 4+sym.Tier())
	vGate(vZoo[0], false, []byte(sym.StrN("raw", n, 0, 127)))
}

// Verif_C14_xml checks the gate for XML.
// Bounds: a schema with a string, a number, a boolean and an array; documents with each element absent, once with a symbolic
// text of two bytes or twice, well-formed or cut off; every answer of the validator.
func Verif_C14_xml() {
	text := `{"type":"object","properties":{` +
		`"s":{"type":"string","transform":{"id":{"from":[{"xmlPath":"//s"}]}}},` +
		`"n":{"type":"number","transform":{"id":{"from":[{"xmlPath":"//n"}]}}},` +
		`"b":{"type":"integer","transform":{"id":{"from":[{"xmlPath":"//b","operations":[{"type":"convertToInt64"}]}]}}},` +
		`"l":{"type":"array","transform":{"id":{"from":[{"xmlPath":"//l"}]}},"items":{"type":"string"}}}}`
	doc := "<r>"
	for _, e := range []string{"s", "n", "b", "l"} {
		switch sym.Choose(e, 3) {
		case 1:
			doc += "<" + e + ">" + sym.StrN("t"+e, 2, '0', '9') + "</" + e + ">"
		case 2:
			doc += "<" + e + ">1</" + e + "><" + e + ">x</" + e + ">"
		}
	}
	if sym.Choose("cut", 2) == 0 {
		doc += "</r>"
	}
	vGate(text, true, []byte(doc))
}

// Verif_C14_history checks that the answer to one document does not carry over to the next.
// Bounds: three transforms in a row (thorough: four) on one transformer, each with a symbolic text and its own answer of the validator.
func Verif_C14_history() {
	g := &gateValidator{}
	tr := vGated(vZoo[0], false, g)
	for i := 0; i < 3+sym.Tier(); i++ {
		s := sym.StrN("s", 1, 'a', 'z')
		g.valid, g.err, g.asked = sym.Choose("valid", 2) == 1, nil, nil
		if sym.Choose("err", 2) == 1 {
			g.err = errGate
		}
		out, err := tr.Transform([]byte(`{"a":"` + s + `"}`))
		want := `{"a":"` + s + `"}`
		sym.Assert(len(g.asked) == 1 && g.asked[0] == want, "every document is validated")
		if g.valid && g.err == nil {
			sym.Assert(err == nil && string(out) == want, "the accepted document is returned")
		} else {
			sym.Assert(err != nil && len(out) == 0, "the document which is not accepted is not returned")
		}
	}
	sym.Reach("end")
}

// Verif_C14_text checks the gate for texts that JSON escapes.
// Bounds: one field whose text has one of 14 pieces (quotes, backslashes, what looks like an escape, signs of HTML, control and non-ASCII
// characters) between two symbolic bytes, as value or as name of the input, JSON or XML; every answer of the validator.
func Verif_C14_text() {
	s := sym.StrN("x", 1, '#', '}') + []string{`\u0026`, `\u003c`, `&`, `<`, `"`, `\`, `\"`, `\n`, "\n", "\t", "\u2028", "é", "😀", `null`}[sym.Choose("piece", 14)] + sym.StrN("y", 1, '#', '}')
	if sym.Choose("xml", 2) == 0 {
		raw, err := json.Marshal(map[string]any{"a": s, s: "z"})
		if err != nil {
			panic("harness input")
		}
		vGate(vZoo[0], false, raw)
		return
	}
	doc := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '&':
			doc += "&amp;"
		case '<':
			doc += "&lt;"
		default:
			doc += s[i : i+1]
		}
	}
	vGate(`{"type":"object","properties":{"s":{"type":"string","transform":{"id":{"from":[{"xmlPath":"//s"}]}}}}}`, true, []byte("<r><s>"+doc+"</s></r>"))
}
