package transform

import (
	"strconv"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vDigits is an optional sign followed by 1 to n digits, and its value.
func vDigits(name string, n int) (string, int) {
	neg := sym.Choose(name+"neg", 3)
	k := 1 + sym.Choose(name+"len", n)
	d := sym.StrN(name, k, '0', '9')
	v := 0
	for i := 0; i < k; i++ {
		v = v*10 + int(d[i]-'0')
	}
	switch neg {
	case 1:
		return "-" + d, -v
	case 2:
		return "+" + d, v
	}
	return d, v
}

// Verif_C11_toint checks convertToInt64 on strings and numbers, through a whole transform.
// Bounds: decimal strings of 1 to 4 digits (thorough: 6) with an optional sign; integers in [-10^6,10^6]; halves in [-500,500].
func Verif_C11_toint() {
	var x any
	want := 0
	field := "string"
	switch sym.Choose("kind", 3) {
	case 0:
		x, want = vDigits("d", 4+2*sym.Tier())
	case 1:
		want = sym.Int("n", -1000000, 1000000)
		x = want
		field = "number"
	case 2:
		h := sym.Int("h", -1000, 1000)
		x = float64(h) / 2
		want = h / 2 // Go truncates towards zero, like int64(float64)
		field = "number"
	}
	v, ok, err := vField(vOp(field, `{"type":"convertToInt64"}`), x)
	sym.Assert(err == nil && ok, "a number can be converted to an integer")
	sym.Assert(vIs(v, want), "the integer is the value of the string, or the number without its fraction")
	sym.Observe("v", vShow(v))
	sym.Reach("end")
}

// Verif_C11_tointbad checks that strings which are not integers are an error.
// Bounds: strings of 1 to 4 bytes over '*'..':' (signs, digits and punctuation).
func Verif_C11_tointbad() {
	s := sym.StrN("s", 1+sym.Choose("n", 4), '*', ':')
	good := true
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' || i == 0 && len(s) > 1 && (s[i] == '-' || s[i] == '+') {
			continue
		}
		good = false
	}
	_, ok, err := vField(vOp("string", `{"type":"convertToInt64"}`), s)
	sym.Assert((err == nil) == good, "exactly the decimal integers are converted, anything else is an error")
	sym.Assert(ok == good, "there is a value exactly when there is no error")
	sym.Reach("end")
}

// Verif_C11_tofloat checks convertToFloat64 on decimal strings and numbers.
// Bounds: strings D, D.D and D.DD of symbolic digits with an optional minus; numbers that are halves in [-500,500].
func Verif_C11_tofloat() {
	var x any
	var want float64
	field := "string"
	switch sym.Choose("kind", 2) {
	case 0:
		s, n := vDigits("d", 2)
		f := sym.StrIn("f", 2, '0', '9')
		scale := 1
		for i := 0; i < len(f); i++ {
			scale *= 10
		}
		fv := 0
		for i := 0; i < len(f); i++ {
			fv = fv*10 + int(f[i]-'0')
		}
		if f != "" {
			x = s + "." + f
		} else {
			x = s
		}
		m := n*scale + fv
		if s[0] == '-' {
			m = n*scale - fv
		}
		sym.Assume(m != 0) // minus zero
		want = float64(m) / float64(scale)
	case 1:
		want = float64(sym.Int("h", -1000, 1000)) / 2
		x = want
		field = "number"
	}
	v, ok, err := vField(vOp(field, `{"type":"convertToFloat64"}`), x)
	sym.Assert(err == nil && ok, "a decimal can be converted to a float")
	sym.Assert(vIs(v, want), "the float has the value of the decimal")
	sym.Reach("end")
}

// Verif_C11_range checks texts at the edges of the range.
// Bounds: a list of numbers around the largest and smallest ones, converted to an integer or a float, alone or with a boolean made of it.
func Verif_C11_range() {
	c := []struct {
		s          string
		int, float bool
	}{{"9223372036854775807", true, true}, {"9223372036854775808", false, true}, {"-9223372036854775808", true, true}, {"-9223372036854775809", false, true},
		{"1e308", false, true}, {"1e309", false, false}, {"-1e309", false, false}, {"1e-400", false, true}, {"179769313486231590000" + strings.Repeat("0", 289), false, false},
		{strings.Repeat("9", 400), false, false}, {"1e99999999999999999999", false, false}}[sym.Choose("number", 11)]
	want, op := c.int, "convertToInt64"
	if sym.Choose("float", 2) == 1 {
		want, op = c.float, "convertToFloat64"
	}
	ops := `{"type":"` + op + `"}`
	field := "number"
	if sym.Choose("bool", 2) == 1 {
		ops, field = ops+`,{"type":"convertToBool"}`, "boolean"
	} else if c.s == "1e-400" || c.s == "-9223372036854775809" {
		want = true // as a number this is zero, or the smallest integer
	}
	_, ok, err := vField(vOp(field, ops), c.s)
	sym.Assert((err == nil) == want, "a number that is too large is an error, any other is converted")
	sym.Assert(ok == want, "there is a value exactly when there is no error")
	sym.Reach("end")
}

// Verif_C11_tobool checks convertToBool on every kind of value.
// Bounds: booleans; numbers in [-5,5] and their halves; strings of 0 to 5 bytes over 'A'..'z' and the digits; arrays of 2 to 3 elements.
func Verif_C11_tobool() {
	kind := sym.Choose("kind", 4)
	var x any
	var want, bad bool
	field := "array"
	switch kind {
	case 0:
		want = sym.Bool("b")
		x = want
	case 1:
		h := sym.Int("h", -10, 10)
		x = float64(h) / 2
		want = h != 0
	case 2:
		lo := byte('A')
		if sym.Choose("digits", 2) == 1 {
			lo = '0'
		}
		n := sym.Choose("n", 6)
		s := sym.StrN("s", n, lo, 'z')
		x = s
		switch s {
		case "1", "t", "T", "true", "TRUE", "True":
			want = true
		case "0", "f", "F", "false", "FALSE", "False":
		default:
			bad = true
		}
	case 3:
		want = true
		x = []any{1, 2, 3}[:2+sym.Choose("n", 2)]
	}
	tr := vTr(`{"type":"object","properties":{"a":{"type":"` + field + `","items":{"type":"boolean"},"transform":{"id":{"from":[{"jsonPath":"$.x","operations":[{"type":"convertToBool"}]}]}}}}}`)
	v, ok, err := vField(tr, x)
	if bad {
		sym.Assert(err != nil, "a string which does not spell a boolean is an error")
		sym.Reach("bad")
		return
	}
	sym.Assert(err == nil && ok, "the value is converted")
	sym.Assert(vIs(v, []any{want}), "zero and the spellings of false are false, everything else is true")
	sym.Observe("v", vShow(v))
	sym.Reach("end")
}

// Verif_C11_inverse checks inverse, and that twice is the identity.
// Bounds: both booleans, one and two inverses; numbers in [-9,9] and strings of 1 to 2 letters are errors.
func Verif_C11_inverse() {
	one, two := `{"type":"inverse"}`, `{"type":"inverse"},{"type":"inverse"}`
	switch sym.Choose("kind", 4) {
	case 0:
		b := sym.Bool("b")
		v, ok, err := vField(vOp("boolean", one), b)
		sym.Assert(err == nil && ok && vIs(v, !b), "inverse gives the other boolean")
		sym.Reach("one")
	case 1:
		b := sym.Bool("b")
		v, ok, err := vField(vOp("boolean", two), b)
		sym.Assert(err == nil && ok && vIs(v, b), "two inverses give the boolean back")
		sym.Reach("two")
	case 2:
		_, _, err := vField(vOp("number", one), sym.Int("n", -9, 9))
		sym.Assert(err != nil, "inverse of a number is an error")
	case 3:
		_, _, err := vField(vOp("string", one), sym.StrN("s", 1+sym.Choose("n", 2), 'a', 'z'))
		sym.Assert(err != nil, "inverse of a string is an error")
	}
}

// Verif_C11_exists checks valueExists on strings.
// Bounds: strings of 0 to 3 printable bytes; missing and null values run no operation.
func Verif_C11_exists() {
	tr := vOp("string", `{"type":"valueExists"}`)
	if sym.Choose("kind", 2) == 0 {
		s := sym.StrIn("s", 3, ' ', '~')
		v, ok, err := vField(tr, s)
		sym.Assert(err == nil && ok && vIs(v, s != ""), "a string exists when it is not empty")
		sym.Reach("string")
		return
	}
	_, ok, err := vField(tr, nil)
	sym.Assert(err == nil && !ok, "null is left out")
	sym.Reach("null")
}

// Verif_C11_types checks that conversions reject values they do not support.
// Bounds: convertToInt64, convertToFloat64 and convertToBool on objects; the first two on booleans and arrays of two.
func Verif_C11_types() {
	op := sym.Choose("op", 3)
	tr := vOp("array", []string{`{"type":"convertToInt64"}`, `{"type":"convertToFloat64"}`, `{"type":"convertToBool"}`}[op])
	var x any
	switch sym.Choose("kind", 3) {
	case 0:
		x = map[string]any{"k": sym.Int("n", 0, 9)}
	case 1:
		x = sym.Bool("b")
	case 2:
		x = []any{"1", "2"}
	}
	_, _, err := vField(tr, x)
	_, isMap := x.(map[string]any)
	sym.Assert((err != nil) == (op < 2 || isMap), "exactly the unsupported kinds of value are errors")
	sym.Reach("end")
}

// Verif_C11_op checks the conversions of Go values that only arise between operations.
// Bounds: convertToInt64 and convertToBool on every int, int8, int16, int32, int64; convertToFloat64 on every int below 2^52.
func Verif_C11_op() {
	n := sym.Int("n", -1<<51, 1<<51)
	var x any
	small := n
	switch sym.Choose("kind", 5) {
	case 0:
		x = n
	case 1:
		small = int(int8(n))
		x = int8(n)
	case 2:
		small = int(int16(n))
		x = int16(n)
	case 3:
		small = int(int32(n))
		x = int32(n)
	case 4:
		x = int64(n)
	}
	v, err := (&convertToInt64{}).transform(x)
	i, ok := v.(int64)
	sym.Assert(err == nil && ok && i == int64(small), "integers keep their value")
	v, err = (&convertToBool{}).transform(x)
	b, ok := v.(bool)
	sym.Assert(err == nil && ok && b == (small != 0), "an integer is true when it is not zero")
	if k, isInt := x.(int); isInt {
		v, err = (&convertToFloat64{}).transform(k)
		f, ok := v.(float64)
		sym.Assert(err == nil && ok && f == float64(n), "an int keeps its value as a float")
	}
	sym.Observe("s", strconv.Itoa(small))
	sym.Reach("end")
}

// Verif_C11_chain checks the conversions between operations: a number computed by one is read by the next.
// Bounds: "M:S" with two symbolic digits each: duration then convertToBool, convertToFloat64 and convertToInt64.
func Verif_C11_chain() {
	m, s := sym.StrN("m", 1, '0', '9'), sym.StrN("s", 1, '0', '9')
	secs := int(m[0]-'0')*60 + int(s[0]-'0')
	op := sym.Choose("op", 3)
	v, ok, err := vField(vOp("string", `{"type":"duration"},`+[]string{`{"type":"convertToInt64"}`, `{"type":"convertToFloat64"}`, `{"type":"convertToBool"}`}[op]), m+":"+s)
	sym.Assert(err == nil && ok, "the seconds can be converted")
	if op == 2 {
		sym.Assert(vIs(v, secs != 0), "no seconds is false")
		return
	}
	sym.Assert(vIs(v, secs), "the conversion keeps the number of seconds")
	sym.Reach("end")
}

// Verif_C11_opfloat checks the conversion of any number to an integer.
// Bounds: every float64 and every float32, infinities and NaN included.
func Verif_C11_opfloat() {
	f := sym.Float("f")
	var x any = f
	if sym.Choose("kind", 2) == 1 {
		f = float64(float32(f))
		x = float32(f)
	}
	v, err := (&convertToInt64{}).transform(x)
	if !(f >= -9223372036854775808 && f < 9223372036854775808) {
		sym.Assert(err != nil, "a number beyond the integers of 64 bits is an error")
		sym.Reach("beyond")
		return
	}
	i, ok := v.(int64)
	sym.Assert(err == nil && ok && i == int64(f), "a number is converted without its fraction")
	sym.Reach("end")
}
