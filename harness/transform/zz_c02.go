package transform

import (
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vHistory compares the second transform of one transformer with the first of another.
func vHistory(schema string, x1, x2 any) {
	used, fresh := vFresh(schema, "used"), vFresh(schema, "fresh")
	raw := vRawOf(x1)
	rawWas := string(raw)
	old, _ := used.Transform(raw)
	oldWas := string(old)
	got, ok1 := vOut(used, x2)
	want, ok2 := vOut(fresh, x2)
	sym.Assert(string(raw) == rawWas, "the input bytes are not changed")
	sym.Assert(string(old) == oldWas, "an output which was returned is not changed by a later transform")
	sym.Assert(ok1 == ok2, "whether an input is an error does not depend on earlier inputs")
	sym.Assert(got == want, "the output does not depend on earlier inputs")
	sym.Observe("got", got)
	sym.Reach("end")
}

// Verif_C02_deep checks that a Transformer has no memory, with two inputs that differ in one deep value.
// Bounds: 14 schemas that combine every feature; the first input any value of depth 2 and the second of depth 1 (thorough: or
// the other way round), each with at most one key per object and lists of up to two elements.
func Verif_C02_deep() {
	schema := vZoo[sym.Choose("schema", len(vZoo))]
	d := 1
	if sym.Tier() == 1 {
		d = sym.Choose("deep", 2)
	}
	vHistory(schema, vThin("x", 1+d), vThin("y", 2-d))
}

// Verif_C02_pair checks the same on objects of two keys.
// Bounds: the same schemas; the first input {k1: v1, k2: v2}, the second {k3: v3} or {}, the values of depth 0 (thorough: 1 for v1 and v3).
func Verif_C02_pair() {
	schema := vZoo[sym.Choose("schema", len(vZoo))]
	ks := []string{"a", "b", "c"}
	i, j := sym.Choose("i", 3), sym.Choose("j", 3)
	x1 := map[string]any{}
	x1[ks[j]] = vThin("v2", 0)
	x1[ks[i]] = vThin("v1", sym.Tier())
	x2 := map[string]any{}
	if k := sym.Choose("k", 4); k < 3 {
		x2[ks[k]] = vThin("v3", sym.Tier())
	}
	vHistory(schema, x1, x2)
}

// Verif_C02_last checks the methods over a long history.
// Bounds: a field taken from three paths with each method; 1 to 3 earlier inputs; each path present (one symbolic letter) or absent.
func Verif_C02_last() {
	m := []string{"first", "last", "concatenate"}[sym.Choose("method", 3)]
	schema := `{"type":"object","properties":{"f":{"type":"string","transform":{"id":{"method":"` + m + `","from":[{"jsonPath":"$.a"},{"jsonPath":"$.b"},{"jsonPath":"$.c"}]}}}}}`
	in := func(name string) any {
		m := map[string]any{}
		for _, k := range []string{"a", "b", "c"} {
			if sym.Choose(name+k+"has", 2) == 1 {
				m[k] = sym.StrN(name+k, 1, 'a', 'z')
			}
		}
		return m
	}
	used, fresh := vFresh(schema, "used"), vFresh(schema, "fresh")
	first := in("x")
	for i := sym.Choose("before", 3); i >= 0; i-- {
		vOut(used, first)
	}
	x := in("y")
	got, ok1 := vOut(used, x)
	want, ok2 := vOut(fresh, x)
	sym.Assert(ok1 && ok2, "strings can be combined by every method")
	sym.Assert(got == want, "the output does not depend on earlier inputs")
	sym.Reach("end")
}

// Verif_C02_default checks that defaults are the same every time.
// Bounds: object, array and scalar defaults at the root, in an object and in an array item, with children that are written into
// the object; three inputs in a row, each with one symbolic letter or nothing for the children.
func Verif_C02_default() {
	schema := []string{
		`{"type":"object","properties":{"o":{"type":"object","default":{"q":"d"},"properties":{"a":{"type":"string"},"q":{"type":"string"}}}}}`,
		`{"type":"object","properties":{"o":{"type":"object","default":{"q":{"r":"d"}},"properties":{"q":{"type":"object","properties":{"a":{"type":"string"}}}}}}}`,
		`{"type":"object","properties":{"l":{"type":"array","items":{"type":"object","default":{"q":"d"},"properties":{"a":{"type":"string"}}}}}}`,
		`{"type":"object","properties":{"l":{"type":"array","default":[{"a":"d"}],"items":{"type":"object","properties":{"a":{"type":"string"},"s":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.o.a"}]}},"items":{"type":"string"}}}}}}}`,
		`{"type":"object","properties":{"p":{"type":"object","default":{"z":[1]},"properties":{"o":{"type":"object","default":{"y":1},"properties":{"a":{"type":"string","transform":{"id":{"from":[{"jsonPath":"$.o.a"}]}}}}}}}}}`,
	}[sym.Choose("schema", 5)]
	in := func(name string) any {
		m := map[string]any{}
		if sym.Choose(name+"has", 2) == 1 {
			m["a"] = sym.StrN(name, 1, 'a', 'z')
		}
		o := map[string]any{"o": m}
		if sym.Choose(name+"list", 2) == 1 {
			o["l"] = []any{m}
		}
		return o
	}
	used, fresh := vFresh(schema, "used"), vFresh(schema, "fresh")
	vOut(used, in("x"))
	vOut(used, in("y"))
	z := in("z")
	got, ok1 := vOut(used, z)
	want, ok2 := vOut(fresh, z)
	sym.Assert(ok1 == ok2, "whether an input is an error does not depend on earlier inputs")
	sym.Assert(got == want, "defaults are not changed by earlier inputs")
	sym.Reach("end")
}

// Verif_C02_known checks outputs that are known in advance after other transforms, so that state of the process is seen as well as
// state of the transformer.
// Bounds: fields through each of eight operations or a path, whose results for the second input are computed by the harness; before
// that one or two transforms of the same or another transformer on symbolic texts of two bytes.
func Verif_C02_known() {
	specs := []struct {
		op   string
		want func(s string) any
	}{
		{``, func(s string) any { return s }},
		{`{"type":"changeCase","args":{"to":"upper"}}`, func(s string) any { return vUpper(s) }},
		{`{"type":"changeCase","args":{"to":"lower"}}`, func(s string) any { return s }},
		{`{"type":"replace","args":{"regex":"(^)","new":"q"}}`, func(s string) any { return "q" + s }},
		{`{"type":"replace","args":{"regex":"($)","new":"r"}}`, func(s string) any { return s + "r" }},
		{`{"type":"toCamelCase","args":{"delimiter":"-"}}`, func(s string) any { return s }},
		{`{"type":"removeHTML"}`, func(s string) any { return s }},
		{`{"type":"split","args":{"on":"-"}}`, func(s string) any { return []any{s} }},
	}
	k := sym.Choose("op", len(specs))
	other := sym.Choose("other", len(specs))
	tr := vOp("string", specs[k].op)
	tr2 := vOp("string", specs[other].op)
	n := 1 + sym.Choose("n", 2)
	for i := 0; i < n; i++ {
		x := any(sym.StrN("x", 2, 'a', 'z'))
		if sym.Choose("kind", 2) == 1 {
			x = []any{x}
		}
		if i == 0 {
			vOut(tr2, map[string]any{"x": x})
		} else {
			vOut(tr, map[string]any{"x": x})
		}
	}
	s := sym.StrN("s", 2, 'a', 'z')
	v, ok, err := vField(tr, s)
	sym.Assert(err == nil && ok, "the transform succeeds whatever came before")
	sym.Assert(vIs(v, specs[k].want(s)), "the output is the one of this input whatever came before")
	sym.Reach("end")
}

func vUpper(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] -= 'a' - 'A'
	}
	return string(b)
}
