package transform

import (
	"encoding/json"
	"fmt"
	"strconv"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

type okValidator struct{}

func (okValidator) Validate(json.RawMessage) (bool, error) { return true, nil }

// vSchema builds a flattened schema from its JSON text.
func vSchema(text string) *jsonschema.Schema {
	s := &jsonschema.Schema{Validator: okValidator{}}
	if err := json.Unmarshal([]byte(text), &s.Instance); err != nil {
		panic("harness schema: " + err.Error())
	}
	return s
}

// vTransformer builds the transformer of a schema.
func vTransformer(text string) *Transformer {
	tr, err := NewTransformer(vSchema(text), "id")
	if err != nil {
		panic("harness transformer: " + err.Error())
	}
	return tr
}

// vRun transforms a tree and decodes the result.
func vRun(tr *Transformer, in any) (any, error) {
	raw, err := json.Marshal(in)
	if err != nil {
		panic("harness input: " + err.Error())
	}
	out, err := tr.Transform(raw)
	if err != nil {
		return nil, err
	}
	var v any
	if err := json.Unmarshal(out, &v); err != nil {
		return nil, err
	}
	return v, nil
}

// vTr is the transformer of a schema, built once.
func vTr(text string) *Transformer {
	return sym.Once(text, func() *Transformer { return vTransformer(text) })
}

// vOp is a transformer with one field "a", taken from $.x through operations (JSON text).
func vOp(fieldType, ops string) *Transformer {
	extra := ""
	if fieldType == "array" {
		extra = `"items":{"type":"string"},`
	}
	return vTr(`{"type":"object","properties":{"a":{` + extra + `"type":"` + fieldType + `","transform":{"id":{"from":[{"jsonPath":"$.x","operations":[` + ops + `]}]}}}}}`)
}

// vField transforms {"x": x} and returns field "a".
func vField(tr *Transformer, x any) (v any, ok bool, err error) {
	out, err := vRun(tr, map[string]any{"x": x})
	if err != nil {
		return nil, false, err
	}
	m, isObj := out.(map[string]any)
	if !isObj {
		sym.Assert(out == nil, "the output of an object schema is an object or null")
		return nil, false, nil
	}
	for k := range m {
		sym.Assert(k == "a", "only schema fields appear in the output")
	}
	v, ok = m["a"]
	return v, ok, nil
}

// vShow renders a value canonically.
func vShow(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		return "'" + x + "'"
	case bool:
		if x {
			return "true"
		}
		return "false"
	case float64:
		if x == float64(int64(x)) {
			return strconv.FormatInt(int64(x), 10)
		}
		return strconv.FormatFloat(x, 'g', -1, 64)
	case int:
		return strconv.Itoa(x)
	case []any:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += ","
			}
			s += vShow(e)
		}
		return s + "]"
	case map[string]any:
		s := "{"
		for i, k := range vKeys(x) {
			if i > 0 {
				s += ","
			}
			s += k + ":" + vShow(x[k])
		}
		return s + "}"
	}
	return fmt.Sprintf("%T", v)
}

// vKeys returns the sorted keys.
func vKeys(m map[string]any) []string {
	var ks []string
	for k := range m {
		i := len(ks)
		ks = append(ks, k)
		for i > 0 && ks[i-1] > k {
			ks[i] = ks[i-1]
			i--
		}
		ks[i] = k
	}
	return ks
}

// vIs compares a decoded JSON value with an expected one without forking; numbers are compared as float64.
func vIs(got, want any) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case string:
		g, ok := got.(string)
		return ok && g == w
	case bool:
		g, ok := got.(bool)
		return ok && sym.Iff(g, w)
	case int:
		g, ok := got.(float64)
		return ok && g == float64(w)
	case float64:
		g, ok := got.(float64)
		return ok && g == w
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return false
		}
		r := true
		for i := range w {
			r = sym.And(r, vIs(g[i], w[i]))
		}
		return r
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return false
		}
		r := true
		for _, k := range vKeys(w) {
			e, ok := g[k]
			if !ok {
				return false
			}
			r = sym.And(r, vIs(e, w[k]))
		}
		return r
	}
	panic("vIs")
}

// vFresh is another transformer of a schema, not used for anything else.
func vFresh(text, tag string) *Transformer {
	return sym.Once(tag+text, func() *Transformer { return vTransformer(text) })
}

func vOut(tr *Transformer, in any) (string, bool) {
	raw, err := json.Marshal(in)
	if err != nil {
		panic("harness input")
	}
	out, err := tr.Transform(raw)
	return string(out), err == nil
}

// vRawOf is the JSON of a value.
func vRawOf(in any) []byte {
	raw, err := json.Marshal(in)
	if err != nil {
		panic("harness input")
	}
	return raw
}
