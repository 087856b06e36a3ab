package transform

import (
	"sync"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vOpsZoo lists a schema for each operation, applied to $.x.
var vOpsZoo = []string{
	`{"type":"changeCase","args":{"to":"upper"}}`,
	`{"type":"split","args":{"on":","}}`,
	`{"type":"replace","args":{"regex":"a(b)?","new":"q"}}`,
	`{"type":"toCamelCase","args":{"delimiter":"-"}}`,
	`{"type":"removeHTML"}`,
	`{"type":"timeParse","args":{"format":"2006-01-02","layout":"Jan 2"}}`,
	`{"type":"duration"}`,
	`{"type":"convertToBool"}`,
	`{"type":"convertToInt64"}`,
	`{"type":"convertToFloat64"}`,
	`{"type":"valueExists"}`,
	`{"type":"max","args":{"by":"@.by","return":"@.ret"}}`,
	`{"type":"inverse"}`,
}

type vResult struct {
	out string
	ok  bool
}

func vRaw(tr *Transformer, raw []byte) vResult {
	out, err := tr.Transform(raw)
	return vResult{string(out), err == nil}
}

// vParallel runs n transforms of one transformer at once and compares each with its result alone.
func vParallel(tr, alone *Transformer, raws [][]byte) {
	want := make([]vResult, len(raws))
	for i, r := range raws {
		want[i] = vRaw(alone, r)
	}
	got := make([]vResult, len(raws))
	sym.Schedule(2)
	var wg sync.WaitGroup
	wg.Add(len(raws))
	for i := range raws {
		go func() {
			defer wg.Done()
			got[i] = vRaw(tr, raws[i])
		}()
	}
	wg.Wait()
	for i := range raws {
		sym.Assert(got[i].ok == want[i].ok, "a concurrent transform fails exactly if it fails alone")
		sym.Assert(got[i].out == want[i].out, "a concurrent transform gives the output it gives alone")
	}
	sym.Reach("end")
}

// v17In is an input for the schemas of the zoo.
func v17In(name string) []byte {
	in := map[string]any{}
	switch sym.Choose(name, 4) {
	case 0:
		in["a"] = sym.StrN(name+"s", 1, '0', 'z')
		in["b"] = sym.Int(name+"n", -9, 9)
	case 1:
		in["a"] = []any{map[string]any{"a": sym.StrN(name+"s", 1, '0', 'z'), "c": []any{map[string]any{"b": "p"}}}, "x"}
		in["b"] = []any{"p"}
	case 2:
		in["a"] = map[string]any{"a": "1", "b": sym.StrN(name+"s", 1, '0', 'z')}
		in["b"] = map[string]any{"a": 5}
		in["c"] = []any{"1", "2"}
	case 3:
	}
	return vRawOf(in)
}

// Verif_C17_json checks concurrent transforms of JSON.
// Bounds: the schemas of the zoo, two goroutines on one transformer with one of four inputs each (symbolic texts and numbers), two
// preemptions at synchronisation points; every access to memory or a map that is not ordered with a conflicting one is a violation.
func Verif_C17_json() {
	text := vZoo[sym.Choose("schema", len(vZoo))]
	vParallel(vFresh(text, "shared"), vFresh(text, "alone"), [][]byte{v17In("p"), v17In("q")})
}

// Verif_C17_ops checks concurrent transforms through every operation.
// Bounds: the 13 operations with an output that depends on the input alone, two goroutines (thorough: three) with a symbolic text of
// up to two bytes or a list of one object each.
func Verif_C17_ops() {
	text := `{"type":"object","properties":{"a":{"type":"string","transform":{"id":{"from":[{"jsonPath":"$.x","operations":[` + vOpsZoo[sym.Choose("op", len(vOpsZoo))] + `]}]}}}}}`
	var raws [][]byte
	for i := 0; i < 2+sym.Tier(); i++ {
		var x any
		switch sym.Choose("kind", 3) {
		case 0:
			x = sym.StrIn("s", 2, 'a', 'c')
		case 1:
			x = []any{map[string]any{"by": sym.Int("n", 0, 9), "ret": "r"}}
		case 2:
			x = sym.Bool("b")
		}
		raws = append(raws, vRawOf(map[string]any{"x": x}))
	}
	vParallel(vFresh(text, "shared"), vFresh(text, "alone"), raws)
}

// Verif_C17_xml checks concurrent transforms of XML.
// Bounds: a schema with scalars of three types, an object and an array of objects; two goroutines with a document each in which every
// element is absent or has a symbolic text, one or two array elements.
func Verif_C17_xml() {
	text := `{"type":"object","properties":{` +
		`"s":{"type":"string","transform":{"id":{"method":"last","from":[{"xmlPath":"//s"},{"xmlPath":"//t"}]}}},` +
		`"n":{"type":"number","transform":{"id":{"from":[{"xmlPath":"//n"}]}}},` +
		`"o":{"type":"object","transform":{"id":{"from":[{"xmlPath":"//o"}]}},"properties":{"b":{"type":"boolean","transform":{"id":{"from":[{"xmlPath":"b"}]}}}}},` +
		`"l":{"type":"array","transform":{"id":{"from":[{"xmlPath":"//l"}]}},"items":{"type":"object","properties":{"k":{"type":"string","transform":{"id":{"from":[{"xmlPath":"@k"}]}}}}}}}}`
	mk := func(tag string) *Transformer {
		return sym.Once(tag, func() *Transformer {
			tr, err := NewXMLTransformer(vSchema(text), "id")
			if err != nil {
				panic("harness transformer")
			}
			return tr
		})
	}
	doc := func(name string) []byte {
		d := "<r>"
		switch sym.Choose(name, 3) {
		case 0:
			d += "<s>" + sym.StrN(name+"s", 1, 'a', 'z') + "</s><n>" + sym.StrN(name+"n", 1, '0', '9') + "</n>"
		case 1:
			d += "<t>" + sym.StrN(name+"s", 1, 'a', 'z') + "</t><o><b>true</b></o>"
		case 2:
			d += "<l k='" + sym.StrN(name+"s", 1, 'a', 'z') + "'/><l k='2'><x/></l>"
		}
		return []byte(d + "</r>")
	}
	vParallel(mk("shared"), mk("alone"), [][]byte{doc("p"), doc("q")})
}

// Verif_C17_build checks that transformers can be built while others of the same schema are built or used.
// Bounds: the schemas of the zoo, one goroutine that builds a JSON or XML transformer and uses it, one that uses another transformer
// of the same Schema value.
func Verif_C17_build() {
	text := vZoo[sym.Choose("schema", len(vZoo))]
	alone := vFresh(text, "alone")
	s := vSchema(text)
	tr, err := NewTransformer(s, "id")
	if err != nil {
		panic("harness transformer")
	}
	xml := sym.Choose("xml", 2) == 1
	a := v17In("p")
	b := a
	wantA, wantB := vRaw(alone, a), vRaw(alone, b)
	var gotA, gotB vResult
	sym.Schedule(2)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		gotA = vRaw(tr, a)
	}()
	go func() {
		defer wg.Done()
		if xml {
			if _, err := NewXMLTransformer(s, "id"); err == nil {
				gotB = wantB
			}
			return
		}
		if t, err := NewTransformer(s, "id"); err == nil {
			gotB = vRaw(t, b)
		}
	}()
	wg.Wait()
	sym.Assert(gotA == wantA && gotB == wantB, "building a transformer and using another at the same time do not disturb each other")
	sym.Reach("end")
}
