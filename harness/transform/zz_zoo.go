package transform

import (
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vZoo lists schemas whose features interact: same-path copies, transforms, relative paths, nested arrays, defaults and
// every combination method.
var vZoo = []string{
	// 0: scalars of every type, same path
	`{"type":"object","properties":{"a":{"type":"string"},"b":{"type":"number"},"c":{"type":"boolean"},"d":{"type":"string","format":"date-time"}}}`,
	// 1: nested objects with defaults
	`{"type":"object","properties":{"a":{"type":"object","properties":{"b":{"type":"string","default":"dflt"},"c":{"type":"object","properties":{"a":{"type":"number"}}}}},"b":{"type":"integer","default":7}}}`,
	// 2: array of scalars, array of objects, same path
	`{"type":"object","properties":{"a":{"type":"array","items":{"type":"string"}},"b":{"type":"array","items":{"type":"object","properties":{"a":{"type":"number"},"c":{"type":"string","default":"z"}}}}}}`,
	// 3: array with a transform and relative paths
	`{"type":"object","properties":{"b":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.a"}]}},"items":{"type":"object","properties":{"c":{"type":"string","transform":{"id":{"from":[{"jsonPath":"@.a"}]}}},"b":{"type":"number"}}}}}}`,
	// 4: nested arrays
	`{"type":"object","properties":{"a":{"type":"array","items":{"type":"object","properties":{"b":{"type":"array","transform":{"id":{"from":[{"jsonPath":"@.c"}]}},"items":{"type":"object","properties":{"a":{"type":"string","transform":{"id":{"from":[{"jsonPath":"@.b"}]}}}}}}}}}}}`,
	// 5: methods
	`{"type":"object","properties":{"a":{"type":"string","transform":{"id":{"method":"concatenate","methodOptions":{"concatenateDelimiter":"-"},"from":[{"jsonPath":"$.a"},{"jsonPath":"$.b"},{"jsonPath":"$.c"}]}}},"b":{"type":"string","transform":{"id":{"method":"last","from":[{"jsonPath":"$.a"},{"jsonPath":"$.b"},{"jsonPath":"$.c"}]}}},"c":{"type":"string","transform":{"id":{"method":"first","from":[{"jsonPath":"$.b"},{"jsonPath":"$.a"}]}}}}}`,
	// 6: object taken by a transform, with a default and children
	`{"type":"object","properties":{"c":{"type":"object","default":{"q":1},"transform":{"id":{"from":[{"jsonPath":"$.a"}]}},"properties":{"a":{"type":"string","transform":{"id":{"from":[{"jsonPath":"$.b"}]}}},"b":{"type":"number","default":3}}}}}`,
	// 7: arrays with defaults, of scalars with transforms
	`{"type":"object","properties":{"a":{"type":"array","default":["x","y"],"items":{"type":"string"}},"c":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.b"}]}},"items":{"type":"string","transform":{"id":{"from":[{"jsonPath":"@.a"}]}}}}}}`,
	// 8: filters, wildcards and operations that need an array
	`{"type":"object","properties":{"a":{"type":"string","transform":{"id":{"from":[{"jsonPath":"$.a[?(@.b==1)].c"}]}}},"b":{"type":"string","transform":{"id":{"from":[{"jsonPath":"$.a","operations":[{"type":"max","args":{"by":"@.b","return":"@.c"}}]}]}}},"c":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.a[*].c"}]}},"items":{"type":"string"}}}}`,
	// 9: a root array
	`{"type":"array","items":{"type":"object","properties":{"a":{"type":"string"},"b":{"type":"array","items":{"type":"number"}}}}}`,
	// 10: array default of objects with nested array transform
	`{"type":"object","properties":{"a":{"type":"array","default":[{"c":[{"b":"p"}]}],"items":{"type":"object","properties":{"b":{"type":"array","transform":{"id":{"from":[{"jsonPath":"@.c"}]}},"items":{"type":"object","properties":{"a":{"type":"string","transform":{"id":{"from":[{"jsonPath":"@.b"}]}}}}}}}}}}}`,
	// 11: empty object and array of arrays
	`{"type":"object","properties":{"a":{"type":"object","properties":{}},"b":{"type":"array","items":{"type":"array","items":{"type":"number"}}}}}`,
	// 12: string operations on whatever is there
	`{"type":"object","properties":{"a":{"type":"string","transform":{"id":{"from":[{"jsonPath":"$.a","operations":[{"type":"split","args":{"on":","}},{"type":"convertToBool"},{"type":"inverse"}]}]}}},"b":{"type":"number","transform":{"id":{"from":[{"jsonPath":"$.b","operations":[{"type":"convertToFloat64"},{"type":"convertToInt64"}]}]}}},"c":{"type":"integer","transform":{"id":{"from":[{"jsonPath":"$.c","operations":[{"type":"duration"}]}]}}}}}`,
	// 13: array inside an array, both transformed from absolute paths
	`{"type":"object","properties":{"a":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.b"}]}},"items":{"type":"object","properties":{"b":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.c"}]}},"items":{"type":"string"}},"c":{"type":"array","items":{"type":"number"}}}}}}}`,
	// 14: arrays below an object, from a transform and from a default
	`{"type":"object","properties":{"a":{"type":"object","properties":{"b":{"type":"array","transform":{"id":{"from":[{"jsonPath":"$.c"}]}},"items":{"type":"string"}},"c":{"type":"array","default":["d"],"items":{"type":"string"}}}}}}`,
	// 15: an array below an object below an array, with a relative path
	`{"type":"object","properties":{"a":{"type":"array","items":{"type":"object","properties":{"b":{"type":"object","properties":{"c":{"type":"array","transform":{"id":{"from":[{"jsonPath":"@.a"},{"jsonPath":"$.c"}]}},"items":{"type":"string"}}}}}}}}}`,
}

// vTree is an arbitrary JSON value of at most the given depth over the keys a, b and c.
func vTree(name string, depth, width int) any {
	n := 4
	if depth > 0 {
		n = 6
	}
	switch sym.Choose(name+"k", n) {
	case 0:
		return sym.StrIn(name+"s", 1, '0', ';')
	case 1:
		return sym.Int(name+"n", -2, 2)
	case 2:
		return nil
	case 3:
		return sym.Bool(name + "b")
	case 4:
		m := map[string]any{}
		for _, k := range []string{"a", "b", "c"}[:width] {
			if sym.Choose(name+k+"has", 2) == 1 {
				m[k] = vTree(name+k, depth-1, width)
			}
		}
		return m
	}
	l := []any{}
	for i := sym.Choose(name+"len", 3); i > 0; i-- {
		l = append(l, vTree(name+"e", depth-1, width))
	}
	return l
}

// vObj is an object with each of the given keys absent or an arbitrary tree.
func vObj(name string, depth, width int, keys ...string) map[string]any {
	m := map[string]any{}
	for _, k := range keys {
		if sym.Choose(name+k+"has", 2) == 1 {
			m[k] = vTree(name+k, depth, width)
		}
	}
	return m
}

// vThin is a value with at most one key per object and lists whose second element is a scalar.
func vThin(name string, depth int) any {
	n := 3
	if depth > 0 {
		n = 7
	}
	switch k := sym.Choose(name+"k", n); k {
	case 0:
		return sym.StrIn(name+"s", 1, '0', ';')
	case 1:
		return sym.Int(name+"n", -2, 2)
	case 2:
		return nil
	case 3, 4, 5:
		return map[string]any{[]string{"a", "b", "c"}[k-3]: vThin(name+"v", depth-1)}
	}
	switch sym.Choose(name+"len", 3) {
	case 0:
		return []any{}
	case 1:
		return []any{vThin(name+"e", depth-1)}
	}
	return []any{vThin(name+"e", depth-1), "z"}
}
