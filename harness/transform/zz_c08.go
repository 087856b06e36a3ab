package transform

import (
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vSeg is one part of a path: a key followed by indexes.
type vSeg struct {
	key string
	idx []int
}

func vPathText(segs []vSeg, root bool) string {
	s := ""
	if root {
		s = "$"
	}
	for i, g := range segs {
		if i > 0 || root {
			s += "."
		}
		s += g.key
		for _, n := range g.idx {
			s += "[" + string(rune('0'+n)) + "]"
		}
	}
	return s
}

// vSegs is any path of the given number of parts; each part has a key a or b and up to two indexes of 0 to 2.
func vSegs(parts, indexes int) []vSeg {
	var out []vSeg
	for i := 0; i < parts; i++ {
		g := vSeg{key: []string{"a", "b"}[sym.Choose("key", 2)]}
		for n := sym.Choose("indexes", indexes+1); n > 0; n-- {
			g.idx = append(g.idx, sym.Choose("index", 3))
		}
		out = append(out, g)
	}
	return out
}

// vCopyTree copies a tree.
func vCopyTree(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for _, k := range vKeys(x) {
			m[k] = vCopyTree(x[k])
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = vCopyTree(x[i])
		}
		return l
	}
	return v
}

// vStore is the reference: it returns the tree with the value stored. bad is set when a value of the wrong kind is under a
// name of the path, odd when a list slot on the path holds something that is neither null nor of the needed kind.
func vStore(tree map[string]any, segs []vSeg, v any) (bad, odd bool) {
	g := segs[0]
	if len(g.idx) == 0 {
		if len(segs) == 1 {
			tree[g.key] = v
			return false, false
		}
		switch m := tree[g.key].(type) {
		case nil:
			n := map[string]any{}
			tree[g.key] = n
			return vStore(n, segs[1:], v)
		case map[string]any:
			return vStore(m, segs[1:], v)
		}
		return true, false
	}
	var list []any
	switch l := tree[g.key].(type) {
	case nil:
	case []any:
		list = l
	default:
		return true, false
	}
	list, bad, odd = vStoreList(list, g.idx, segs[1:], v)
	tree[g.key] = list
	return bad, odd
}

func vStoreList(list []any, idx []int, rest []vSeg, v any) (out []any, bad, odd bool) {
	for len(list) <= idx[0] {
		list = append(list, nil)
	}
	slot := list[idx[0]]
	switch {
	case len(idx) > 1:
		var in []any
		switch l := slot.(type) {
		case nil:
		case []any:
			in = l
		default:
			return list, false, true
		}
		in, bad, odd = vStoreList(in, idx[1:], rest, v)
		list[idx[0]] = in
	case len(rest) > 0:
		m, ok := slot.(map[string]any)
		if !ok {
			if slot != nil {
				return list, false, true
			}
			m = map[string]any{}
		}
		list[idx[0]] = m
		bad, odd = vStore(m, rest, v)
	default:
		if m, ok := v.(map[string]any); ok {
			if old, ok := slot.(map[string]any); ok {
				for _, k := range vKeys(old) {
					if _, has := m[k]; !has {
						m[k] = old[k]
					}
				}
			}
		}
		list[idx[0]] = v
	}
	return list, bad, odd
}

// vSameTree compares a tree, which holds no numbers but ints, with the reference.
func vSameTree(got, want any) bool {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return false
		}
		r := true
		for _, k := range vKeys(w) {
			e, ok := g[k]
			if !ok {
				return false
			}
			r = sym.And(r, vSameTree(e, w[k]))
		}
		return r
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return false
		}
		r := true
		for i := range w {
			r = sym.And(r, vSameTree(g[i], w[i]))
		}
		return r
	case string:
		g, ok := got.(string)
		return ok && g == w
	case int:
		g, ok := got.(int)
		return ok && g == w
	}
	return got == nil && want == nil
}

// vStoreCheck stores a value in a tree and compares with the reference.
func vStoreCheck(tree map[string]any, segs []vSeg, v any) bool {
	want := vCopyTree(tree).(map[string]any)
	bad, odd := vStore(want, segs, vCopyTree(v))
	err := saveInTree(tree, vPathText(segs, sym.Choose("root", 2) == 1), v)
	if odd {
		sym.Reach("odd")
		return false // what is stored over a text in a list slot is not specified, only that nothing panics
	}
	if bad {
		sym.Assert(err != nil, "a path through a value of another kind is an error")
		sym.Reach("error")
		return false
	}
	sym.Assert(err == nil, "the path can be stored to")
	sym.Observe("tree", vShow(tree))
	sym.Assert(vSameTree(tree, want), "the tree is the old one with the value at its path")
	sym.Reach("stored")
	return true
}

// vLeaf is a value without numbers other than int.
func vLeaf(name string) any {
	switch sym.Choose(name+"k", 4) {
	case 0:
		return sym.StrN(name, 1, 'a', 'z')
	case 1:
		return sym.Int(name+"n", -5, 5)
	case 2:
		return map[string]any{"b": sym.StrN(name, 1, 'a', 'z')}
	}
	return []any{sym.StrN(name, 1, 'a', 'z')}
}

// vOld is a tree of at most the given depth with one or no key per map and lists of up to two elements.
func vOld(name string, depth int) any {
	n := 2
	if depth > 0 {
		n = 6
	}
	switch k := sym.Choose(name+"k", n); k {
	case 0:
		return nil
	case 1:
		return sym.StrN(name, 1, 'a', 'z')
	case 2, 3:
		return map[string]any{[]string{"a", "b"}[k-2]: vOld(name+"v", depth-1)}
	case 4:
		return []any{vOld(name+"e", depth-1)}
	}
	return []any{"z", vOld(name+"e", depth-1)}
}

// Verif_C08_store checks one store into any tree.
// Bounds: trees that are maps of one key (a, b, or c) with a value of depth 2 (thorough: 3), maps with one key and lists of one or two elements; paths
// of one or two parts, keys a and b, each part with up to two indexes of 0 to 2; the value a letter, a number, a map or a list.
func Verif_C08_store() {
	tree := map[string]any{}
	if k := sym.Choose("top", 4); k < 3 {
		tree[[]string{"a", "b", "c"}[k]] = vOld("old", 2+sym.Tier())
	}
	segs := vSegs(1+sym.Choose("parts", 2), 2)
	vStoreCheck(tree, segs, vLeaf("v"))
}

// Verif_C08_deep checks stores at longer paths.
// Bounds: the same trees of depth 1 (thorough: 2); paths of three parts with up to one index each.
func Verif_C08_deep() {
	tree := map[string]any{}
	if k := sym.Choose("top", 3); k < 2 {
		tree[[]string{"a", "b"}[k]] = vOld("old", 1+sym.Tier())
	}
	vStoreCheck(tree, vSegs(3, 1), sym.StrN("v", 1, 'a', 'z'))
}

// Verif_C08_twice checks two stores in a row, starting from nothing.
// Bounds: paths of one or two parts with up to one index each (thorough: two); the first value a map, a list or a letter, the second a letter or a map.
func Verif_C08_twice() {
	tree := map[string]any{}
	if !vStoreCheck(tree, vSegs(1+sym.Choose("parts", 2), 1+sym.Tier()), vLeaf("v")) {
		return
	}
	var v any = sym.StrN("w", 1, 'a', 'z')
	if sym.Choose("wmap", 2) == 1 {
		v = map[string]any{"a": v}
	}
	vStoreCheck(tree, vSegs(1+sym.Choose("parts", 2), 1), v)
}

// Verif_C08_null checks that storing null changes nothing.
// Bounds: the trees and paths of store.
func Verif_C08_null() {
	tree := map[string]any{}
	if k := sym.Choose("top", 3); k < 2 {
		tree[[]string{"a", "b"}[k]] = vOld("old", 2)
	}
	before := vCopyTree(tree)
	err := saveInTree(tree, vPathText(vSegs(1+sym.Choose("parts", 2), 1), sym.Choose("root", 2) == 1), nil)
	sym.Assert(err == nil && vSameTree(tree, before), "null is not stored")
	sym.Reach("end")
}

// Verif_C08_objects checks that the fields of an object keep to their names.
// Bounds: an object with a default or a value from a transform (one or two keys, one of them the name of a field, with a letter or an object),
// a text field and an object field with a field of its own, each absent or with a letter.
func Verif_C08_objects() {
	how := sym.Choose("how", 3)
	baseText := []string{``, `"default":{"k":"K","t":"T"},`, `"transform":{"id":{"from":[{"jsonPath":"$.x"}]}},`}[how]
	schema := vObject(`"o":{"type":"object",` + baseText + `"properties":{"t":{"type":"string"},"n":` + vObject(`"u":{"type":"string"}`) + `}}`)
	in, o, want := map[string]any{}, map[string]any{}, map[string]any{}
	switch how {
	case 1:
		want["k"], want["t"] = "K", "T"
	case 2:
		x := map[string]any{}
		for _, k := range []string{"k", "t", "n"} {
			if sym.Choose(k+"base", 2) == 1 {
				x[k] = sym.StrN(k+"x", 1, 'a', 'z')
				want[k] = x[k]
			}
		}
		in["x"] = x
	}
	if sym.Choose("thas", 2) == 1 {
		o["t"] = sym.StrN("t", 1, 'a', 'z')
		want["t"] = o["t"]
	}
	if sym.Choose("uhas", 2) == 1 {
		n := map[string]any{"u": sym.StrN("u", 1, 'a', 'z')}
		o["n"] = n
		want["n"] = n
	}
	in["o"] = o
	out, err := vRun(vTr(schema), in)
	sym.Assert(err == nil, "the transform succeeds")
	if len(want) == 0 {
		vExpect(out, vSet{}, "o")
		return
	}
	vExpect(out, vSet{want, true}, "o")
}
