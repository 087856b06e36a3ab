package transform

import (
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vElems is a list of 0 to n elements, each null, a one letter text or a one digit number, and the texts expected from it.
func vElems(name string, n int) (l []any, want []any) {
	l = []any{}
	for i := sym.Choose(name+"len", n+1); i > 0; i-- {
		switch sym.Choose(name+"e", 3) {
		case 0:
			l = append(l, nil)
		case 1:
			s := sym.StrN(name+"s", 1, 'a', 'z')
			l = append(l, s)
			want = append(want, s)
		case 2:
			s := string([]byte{'0' + byte(sym.Int(name+"n", 0, 9))})
			l = append(l, int(s[0]-'0'))
			want = append(want, s)
		}
	}
	return l, want
}

// Verif_C07_scalars checks arrays of texts.
// Bounds: lists of 0 to 3 elements (thorough: 5), each null, a letter or a digit; at the same path, through a transform, below an object, as the
// whole document, or from an operation that splits a text.
func Verif_C07_scalars() {
	n := 3 + 2*sym.Tier()
	str := `{"type":"string"}`
	l, want := vElems("l", n)
	switch sym.Choose("place", 5) {
	case 0:
		out, err := vRun(vTr(vObject(`"l":`+vArray("", str))), map[string]any{"l": l})
		vListResult(out, err, want, "l")
	case 1:
		out, err := vRun(vTr(vObject(`"l":`+vArray("$.x.y", str))), map[string]any{"x": map[string]any{"y": l}, "l": []any{"q", "r", "s", "t", "u", "v", "w"}})
		if len(l) == 0 || len(l) == 1 && l[0] == nil {
			// nothing found by the transform: the same path
			want = []any{"q", "r", "s", "t", "u", "v", "w"}
		}
		vListResult(out, err, want, "l")
	case 2:
		out, err := vRun(vTr(vObject(`"o":`+vObject(`"l":`+vArray("", str)))), map[string]any{"o": map[string]any{"l": l}})
		vListResult(out, err, want, "o", "l")
	case 3:
		out, err := vRun(vTr(vArray("", str)), l)
		sym.Assert(err == nil, "the transform succeeds")
		if len(want) == 0 {
			sym.Assert(out == nil, "an empty document is null")
			sym.Reach("empty")
			return
		}
		sym.Assert(vIs(out, want), "the document has the expected items")
		sym.Reach("root")
	case 4:
		text := ""
		want = nil
		for i := sym.Choose("parts", n) + 1; i > 0; i-- {
			p := sym.StrN("part", 1, 'a', 'z')
			if text != "" {
				text += ","
			}
			text += p
			want = append(want, p)
		}
		schema := vObject(`"l":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.x","operations":[{"type":"split","args":{"on":","}}]}]}},"items":{"type":"string"}}`)
		out, err := vRun(vTr(schema), map[string]any{"x": text})
		vListResult(out, err, want, "l")
	}
}

// Verif_C07_objects checks that the fields of an item read the element it is made from.
// Bounds: lists of 0 to 3 elements (thorough: 4), each an object with each of two fields absent or of one letter; the item takes one field from the
// same path, one through a relative path, one through the absolute path of the array; same path or transform.
func Verif_C07_objects() {
	via := sym.Choose("via", 2)
	src := []string{"l", "m"}[via]
	schema := vObject(`"l":` + vArray([]string{"", "$.m"}[via], vObject(`"p":{"type":"string"},"r":`+vFrom("string", "@.q")+`,"s":`+vFrom("string", "$.l[*].p"))))
	l := []any{}
	var want []any
	for i := sym.Choose("len", 4+sym.Tier()); i > 0; i-- {
		e, w := map[string]any{}, map[string]any{}
		if sym.Choose("phas", 2) == 1 {
			e["p"] = sym.StrN("p", 1, 'a', 'z')
			w["p"], w["s"] = e["p"], e["p"]
		}
		if sym.Choose("qhas", 2) == 1 {
			e["q"] = sym.StrN("q", 1, 'a', 'z')
			w["r"] = e["q"]
		}
		l = append(l, e)
		if len(w) > 0 {
			want = append(want, w)
		}
	}
	out, err := vRun(vTr(schema), map[string]any{src: l})
	vListResult(out, err, want, "l")
}

// Verif_C07_nested checks nested arrays.
// Bounds: 0 to 2 outer elements with a letter and 0 to 2 inner ones (thorough: 3) of one letter or empty; the inner array at the same path or from
// a relative transform, the outer from a transform or not; inner items read their own field, the field of the outer element and a field of the document.
func Verif_C07_nested() {
	outer, inner := sym.Choose("outer", 2), sym.Choose("inner", 2)
	schema := vObject(`"l":` + vArray([]string{"", "$.m"}[outer], vObject(`"k":{"type":"string"},"c":`+vArray([]string{"", "@.d"}[inner],
		vObject(`"x":{"type":"string"},"y":`+vFrom("string", "@.x")+`,"k":`+vFrom("string", "$.l[*].k")+`,"g":`+vFrom("string", "$.g"))))))
	ck := []string{"c", "d"}[inner]
	in := map[string]any{"g": "G"}
	l := []any{}
	var want []any
	for i := sym.Choose("len", 3); i > 0; i-- {
		k := sym.StrN("k", 1, 'a', 'z')
		e, w := map[string]any{"k": k}, map[string]any{"k": k}
		var c, cw []any
		for j := sym.Choose("clen", 3+sym.Tier()); j > 0; j-- {
			iw := map[string]any{"k": k, "g": "G"}
			if sym.Choose("xhas", 2) == 1 {
				x := sym.StrN("x", 1, 'a', 'z')
				c = append(c, map[string]any{"x": x})
				iw["x"], iw["y"] = x, x
			} else {
				c = append(c, map[string]any{})
			}
			cw = append(cw, iw)
		}
		if c != nil {
			e[ck] = c
			w["c"] = cw
		}
		l = append(l, e)
		want = append(want, w)
	}
	in[[]string{"l", "m"}[outer]] = l
	out, err := vRun(vTr(schema), in)
	vListResult(out, err, want, "l")
}

// Verif_C07_lists checks lists of lists.
// Bounds: 0 to 3 lists of 0 to 2 letters, or a letter or null in place of a list; at the same path, from a transform, or as the whole document.
func Verif_C07_lists() {
	place := sym.Choose("place", 3)
	items := vArray("", `{"type":"string"}`)
	l := []any{}
	var want []any
	for i := sym.Choose("len", 4); i > 0; i-- {
		switch k := sym.Choose("kind", 5); k {
		case 0, 1, 2:
			e := []any{}
			for ; k > 0; k-- {
				e = append(e, sym.StrN("s", 1, 'a', 'z'))
			}
			l = append(l, e)
			if len(e) > 0 {
				want = append(want, e)
			}
		case 3:
			s := sym.StrN("s", 1, 'a', 'z')
			l = append(l, s)
			want = append(want, []any{s})
		case 4:
			l = append(l, nil)
		}
	}
	switch place {
	case 0:
		out, err := vRun(vTr(vObject(`"l":`+vArray("", items))), map[string]any{"l": l})
		vListResult(out, err, want, "l")
	case 1:
		if len(l) < 2 {
			sym.Skip() // a list of one list is unwrapped by a transform
		}
		out, err := vRun(vTr(vObject(`"l":`+vArray("$.x", items))), map[string]any{"x": l})
		vListResult(out, err, want, "l")
	case 2:
		out, err := vRun(vTr(vArray("", items)), l)
		vListResult(map[string]any{"l": out}, err, want2(want, out), "l")
	}
}

func want2(want []any, out any) []any {
	if len(want) == 0 {
		sym.Assert(out == nil, "a document without items is null")
		sym.Skip()
	}
	return want
}

// Verif_C07_single checks that a source which is no list stands for a list of one.
// Bounds: a letter, a one digit number, a boolean, an object with one field of one letter; same path, with or without a transform that finds nothing, or transform; null and absent give nothing.
func Verif_C07_single() {
	via := sym.Choose("via", 3)
	src := []string{"l", "m", "l"}[via]
	in := map[string]any{}
	items, from := `{"type":"string"}`, []string{"", "$.m", "$.m"}[via]
	var want []any
	switch sym.Choose("kind", 6) {
	case 0:
		s := sym.StrN("s", 1, 'a', 'z')
		in[src], want = s, []any{s}
	case 1:
		n := sym.Int("n", 0, 9)
		in[src], want = n, []any{string([]byte{'0' + byte(n)})}
	case 2:
		in[src], want = true, []any{"true"}
	case 3:
		s := sym.StrN("s", 1, 'a', 'z')
		in[src] = map[string]any{"p": s}
		want = []any{map[string]any{"p": s, "r": s}}
		items = vObject(`"p":{"type":"string"},"r":` + vFrom("string", "@.p"))
	case 4:
		in[src] = nil
	}
	out, err := vRun(vTr(vObject(`"l":`+vArray(from, items))), in)
	vListResult(out, err, want, "l")
}

// Verif_C07_root checks documents that are lists, with nested arrays.
// Bounds: 0 to 2 elements with an inner list of 0 to 2 letters, at the same path, from a relative transform or from a default.
func Verif_C07_root() {
	how := sym.Choose("how", 3)
	inner := vArray([]string{"", "@.d", ""}[how], `{"type":"string"}`)
	if how == 2 {
		inner = `{"type":"array","default":["x","y"],"items":{"type":"string"}}`
	}
	l := []any{}
	var want []any
	for i := sym.Choose("len", 3); i > 0; i-- {
		var c []any
		for j := sym.Choose("clen", 3); j > 0; j-- {
			c = append(c, sym.StrN("s", 1, 'a', 'z'))
		}
		e := map[string]any{"k": "K"}
		w := map[string]any{"k": "K"}
		if c != nil {
			e[[]string{"c", "d", "c"}[how]] = c
			w["c"] = c
		} else if how == 2 {
			w["c"] = []any{"x", "y"}
		}
		l = append(l, e)
		want = append(want, w)
	}
	out, err := vRun(vTr(vArray("", vObject(`"k":{"type":"string"},"c":`+inner))), l)
	sym.Assert(err == nil, "the transform succeeds")
	if len(want) == 0 {
		sym.Assert(out == nil, "a document without items is null")
		sym.Reach("empty")
		return
	}
	sym.Assert(vIs(out, want), "the document has the expected items")
	sym.Observe("out", vShow(out))
	sym.Reach("items")
}

// Verif_C07_default checks the default of an array.
// Bounds: an array of objects whose default has two elements; the source absent, null, empty or with one element.
func Verif_C07_default() {
	via := sym.Choose("via", 2)
	schema := vObject(`"l":{"type":"array","default":[{"p":"1"},{"p":"2"}],` + []string{"", `"transform":{"id":{"from":[{"jsonPath":"$.m"}]}},`}[via] + `"items":` + vObject(`"p":{"type":"string"},"r":`+vFrom("string", "@.p")) + `}`)
	item := func(p string) any { return map[string]any{"p": p, "r": p} }
	want := []any{item("1"), item("2")}
	in := map[string]any{}
	src := []string{"l", "m"}[via]
	switch sym.Choose("kind", 4) {
	case 1:
		in[src] = nil
	case 2:
		in[src] = []any{}
		if via == 0 {
			want = nil
		}
	case 3:
		s := sym.StrN("s", 1, 'a', 'z')
		in[src] = []any{map[string]any{"p": s}}
		want = []any{item(s)}
	}
	out, err := vRun(vTr(schema), in)
	vListResult(out, err, want, "l")
}

// Verif_C07_itemdefault checks the defaults of the items of an array.
// Bounds: lists of 0 to 3 elements (thorough: 5), each null, a letter or (for objects) an object with or without a letter; the items
// are texts with a default, objects with a field that has a default, or lists with a default; at the same path, as the only
// source of a transform (two elements or more) or as the whole document.
func Verif_C07_itemdefault() {
	place, kind := sym.Choose("place", 3), sym.Choose("items", 3)
	items := []string{`{"type":"string","default":"DD"}`, vObject(`"p":{"type":"string","default":"DD"},"q":{"type":"string"}`), `{"type":"array","default":["DD"],"items":{"type":"string"}}`}[kind]
	l := []any{}
	var want []any
	for i := sym.Choose("len", 4+2*sym.Tier()); i > 0; i-- {
		s := sym.StrN("s", 1, 'a', 'z')
		var e, w any
		switch kind {
		case 0:
			e, w = s, s
		case 1:
			e, w = map[string]any{"p": s, "q": s}, map[string]any{"p": s, "q": s}
			if sym.Choose("without", 2) == 1 {
				e, w = map[string]any{"q": s}, map[string]any{"p": "DD", "q": s}
			}
		case 2:
			e, w = []any{s}, []any{s}
		}
		if sym.Choose("null", 2) == 1 {
			e, w = nil, []any{"DD", map[string]any{"p": "DD"}, []any{"DD"}}[kind]
		}
		l = append(l, e)
		want = append(want, w)
	}
	switch place {
	case 0:
		out, err := vRun(vTr(vObject(`"l":`+vArray("", items))), map[string]any{"l": l})
		vListResult(out, err, want, "l")
	case 1:
		if len(l) < 2 {
			sym.Skip() // a list of one element is unwrapped by a transform
		}
		out, err := vRun(vTr(vObject(`"l":`+vArray("$.x", items))), map[string]any{"x": l})
		vListResult(out, err, want, "l")
	case 2:
		out, err := vRun(vTr(vArray("", items)), l)
		vListResult(map[string]any{"l": out}, err, want2(want, out), "l")
	}
}
