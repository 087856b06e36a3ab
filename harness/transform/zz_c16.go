package transform

import (
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// Verif_C16_max checks max.
// Bounds: arrays of 1 to 3 objects (thorough: 4) with the field compared in [-3,3] (equal and negative values included) and a
// distinct value to return; the field as integer or as number with a fraction.
func Verif_C16_max() {
	n := 1 + sym.Choose("n", 3+sym.Tier())
	half := sym.Choose("half", 2) == 1
	var items []any
	best := 0
	vals := make([]int, n)
	for i := 0; i < n; i++ {
		vals[i] = sym.Int("v", -3, 3)
		var by any = vals[i]
		if half {
			by = float64(vals[i]) / 2
		}
		items = append(items, map[string]any{"by": by, "ret": "r" + string(rune('0'+i))})
		if vals[i] > vals[best] {
			best = i
		}
	}
	v, ok, err := vField(vOp("string", `{"type":"max","args":{"by":"@.by","return":"@.ret"}}`), items)
	sym.Assert(err == nil && ok, "the maximum of objects with a number is found")
	sym.Assert(vIs(v, "r"+string(rune('0'+best))), "max returns the field of the first item with the largest number")
	sym.Observe("v", vShow(v))
	sym.Reach("end")
}

// Verif_C16_close checks max on numbers of any distance.
// Bounds: two numbers out of a list of tiny, huge, close and negative ones, in both orders, before, after or around a third one.
func Verif_C16_close() {
	ns := []float64{0, 1e-300, 1e-10, 2e-10, 1, 1.0000000000000002, -1e-10, -1, -1e300, 1e300, 9007199254740992, 9007199254740994, 4294967296, -9223372036854775808}
	a, b := sym.Choose("a", len(ns)), sym.Choose("b", len(ns))
	items := []any{map[string]any{"by": ns[a], "ret": "a"}, map[string]any{"by": ns[b], "ret": "b"}}
	want := "a"
	if ns[b] > ns[a] {
		want = "b"
	}
	if third := sym.Choose("third", 4); third > 0 {
		low := []any{map[string]any{"by": -1e301, "ret": "low"}}
		items = append(append(append([]any{}, items[:third-1]...), low...), items[third-1:]...)
	}
	v, ok, err := vField(vOp("string", `{"type":"max","args":{"by":"@.by","return":"@.ret"}}`), items)
	sym.Assert(err == nil && ok, "the maximum of objects with a number is found")
	sym.Assert(vIs(v, want), "max returns the field of the first item with the largest number")
	sym.Reach("end")
}

// Verif_C16_bad checks what max does with items it cannot compare.
// Bounds: two items, one with a number in [0,3], the other without the field, or with a string, boolean or null in its place, in either order; no items.
func Verif_C16_bad() {
	tr := vOp("string", `{"type":"max","args":{"by":"@.by","return":"@.ret"}}`)
	good := map[string]any{"by": sym.Int("v", 0, 3), "ret": "good"}
	other := map[string]any{"ret": "other"}
	switch sym.Choose("kind", 5) {
	case 0:
	case 1:
		other["by"] = sym.StrN("s", 1, '0', '9')
	case 2:
		other["by"] = sym.Bool("b")
	case 3:
		other["by"] = nil
	case 4:
		_, ok, err := vField(tr, []any{})
		sym.Assert(err == nil && !ok, "no items give no value")
		sym.Reach("none")
		return
	}
	items := []any{good, other}
	if sym.Choose("order", 2) == 1 {
		items = []any{other, good}
	}
	_, _, err := vField(tr, items)
	sym.Assert(err != nil, "an item without a number to compare is an error")
	sym.Reach("bad")
}

// Verif_C16_return checks the returned field of max.
// Bounds: two items with numbers in [0,9]; the larger one lacks the returned field, or has a number, a boolean or a string there.
func Verif_C16_return() {
	tr := vOp("string", `{"type":"max","args":{"by":"@.by","return":"@.ret"}}`)
	a, b := sym.Int("a", 0, 9), sym.Int("b", 0, 9)
	sym.Assume(a < b)
	low := map[string]any{"by": a, "ret": "low"}
	high := map[string]any{"by": b}
	var want any
	switch sym.Choose("kind", 4) {
	case 0:
	case 1:
		want = sym.Int("n", -9, 9)
	case 2:
		want = sym.Bool("b2")
	case 3:
		want = sym.StrIn("s", 2, 'a', 'z')
	}
	if want != nil {
		high["ret"] = want
	}
	items := []any{low, high}
	if sym.Choose("order", 2) == 1 {
		items = []any{high, low}
	}
	v, ok, err := vField(tr, items)
	if want == nil {
		sym.Assert(err != nil, "a largest item without the field to return is an error")
		sym.Reach("missing")
		return
	}
	sym.Assert(err == nil && ok && vIs(v, want), "max returns the field as it is in the largest item")
	sym.Reach("end")
}

// Verif_C16_empty checks that max never panics on what an earlier operation gives it.
// Bounds: split followed by max, strings of 0 to 2 bytes over '+'..'-'.
func Verif_C16_empty() {
	s := sym.StrIn("s", 2, '+', '-')
	_, ok, err := vField(vOp("string", `{"type":"split","args":{"on":","}},{"type":"max","args":{"by":"@.by","return":"@.ret"}}`), s)
	if s == "" {
		sym.Assert(err != nil || !ok, "the maximum of no items is not a value")
		sym.Reach("empty")
		return
	}
	sym.Assert(err != nil, "strings cannot be compared")
	sym.Reach("end")
}

// Verif_C16_large checks max on numbers of any size.
// Bounds: three items whose numbers are in [-2,2] around 0, 2^31, 2^32, 10^15 or -2^31 (case split per item), found two levels deep.
func Verif_C16_large() {
	base := []int{0, 1 << 31, 1 << 32, 1000000000000000, -1 << 31}
	var items []any
	var vals [3]int
	best := 0
	for i := range vals {
		vals[i] = base[sym.Choose("base", len(base))] + sym.Int("v", -2, 2)
		items = append(items, map[string]any{"o": map[string]any{"by": vals[i]}, "r": map[string]any{"ret": "r" + string(rune('0'+i))}})
		if vals[i] > vals[best] {
			best = i
		}
	}
	v, ok, err := vField(vOp("string", `{"type":"max","args":{"by":"@.o.by","return":"@.r.ret"}}`), items)
	sym.Assert(err == nil && ok, "the maximum of objects with a number is found")
	sym.Assert(vIs(v, "r"+string(rune('0'+best))), "max returns the field of the first item with the largest number")
	sym.Reach("end")
}
