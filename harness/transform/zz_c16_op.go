package transform

import (
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// Verif_C16_ints checks the operation itself on items whose numbers are Go integers.
// Bounds: two or three items with integers in [-3,3] around 0, 2^31, 2^32 or -2^40 (case split per item).
func Verif_C16_ints() {
	m := &max{}
	if err := m.init(map[string]string{"by": "@.by", "return": "@.ret"}); err != nil {
		sym.Fail("max takes by and return: " + err.Error())
	}
	n := 2 + sym.Choose("n", 2)
	var items []interface{}
	vals := make([]int, n)
	best := 0
	for i := range vals {
		vals[i] = []int{0, 1 << 31, 1 << 32, -1 << 40}[sym.Choose("base", 4)] + sym.Int("v", -3, 3)
		items = append(items, map[string]interface{}{"by": vals[i], "ret": i})
		if vals[i] > vals[best] {
			best = i
		}
	}
	v, err := m.transform(items)
	sym.Assert(err == nil && v == best, "max returns the field of the first item with the largest number")
	sym.Reach("end")
}
