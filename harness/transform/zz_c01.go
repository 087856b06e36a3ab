package transform

import (
	"encoding/json"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// Verif_C01_raw checks that Transform never panics and that what it returns without an error is valid JSON.
// Bounds: every input of 0 to 4 bytes over the printable ASCII range, space included, on a schema with an object, an array
// and a scalar.
func Verif_C01_raw() {
	tr := vTr(`{"type":"object","properties":{"a":{"type":"string"},"b":{"type":"array","items":{"type":"number"}},"0":{"type":"object","properties":{"c":{"type":"boolean","default":true}}}}}`)
	raw := sym.StrIn("raw", 4, ' ', '~')
	out, err := tr.Transform(json.RawMessage(raw))
	if err != nil {
		sym.Reach("error")
		return
	}
	var v any
	sym.Assert(json.Unmarshal(out, &v) == nil, "the output is valid JSON")
	sym.Observe("out", string(out))
	sym.Reach("valid")
}

// vCheckTotal runs one transform whose result must be an error or valid JSON.
func vCheckTotal(tr *Transformer, in any) {
	raw, err := json.Marshal(in)
	sym.Assert(err == nil, "harness")
	out, err := tr.Transform(raw)
	if err != nil {
		sym.Reach("error")
		return
	}
	var v any
	sym.Assert(json.Unmarshal(out, &v) == nil, "the output is valid JSON")
	sym.Observe("out", string(out))
	sym.Reach("valid")
}

// Verif_C01_deep checks that no shape of input makes Transform panic.
// Bounds: 16 schemas that combine copies, transforms, relative paths, nested arrays, defaults, methods and operations; inputs that are
// any value of depth 3 (thorough: 4) with at most one key per object ("a", "b" or "c", a case split) and lists of up to two elements.
func Verif_C01_deep() {
	tr := vTr(vZoo[sym.Choose("schema", len(vZoo))])
	vCheckTotal(tr, vThin("in", 3+sym.Tier()))
}

// Verif_C01_wide checks that no combination of sibling values makes Transform panic.
// Bounds: the same schemas; inputs are objects with two of the keys a, b and c, each a value of depth 1 (thorough: all three, of depth 1).
func Verif_C01_wide() {
	tr := vTr(vZoo[sym.Choose("schema", len(vZoo))])
	skip := 3
	if sym.Tier() == 0 {
		skip = sym.Choose("skip", 3)
	}
	in := map[string]any{}
	for i, k := range []string{"a", "b", "c"} {
		if i != skip {
			in[k] = vThin("in"+k, 1)
		}
	}
	vCheckTotal(tr, in)
}

// Verif_C01_mix checks that no combination of a deep value and a sibling makes Transform panic.
// Bounds: the schemas with arrays; an object with one key of depth 2 (thorough: 3) and another of depth 0.
func Verif_C01_mix() {
	tr := vTr(vZoo[[]int{2, 3, 4, 7, 8, 10, 13, 14, 15}[sym.Choose("schema", 9)]])
	i, j := sym.Choose("i", 3), sym.Choose("j", 3)
	if i == j {
		sym.Skip()
	}
	ks := []string{"a", "b", "c"}
	vCheckTotal(tr, map[string]any{ks[i]: vThin("x", 2+sym.Tier()), ks[j]: vThin("y", 0)})
}
