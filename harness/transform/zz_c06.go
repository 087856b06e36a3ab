package transform

import (
	"strconv"
	"time"

	"encoding/json"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vCopy transforms {"f": x} (or the value of $.x through a transform) with a field of the type and returns the text of the field's value.
func vCopy(typ string, via int, x any, wrap int) (val string, ok bool, err error) {
	schema := `{"type":"object","properties":{"f":` + vScalar(typ, []string{"", `,"transform":{"id":{"from":[{"jsonPath":"$.x"}]}}`}[via]) + `}}`
	for ; wrap > 0; wrap-- {
		x = []any{x}
	}
	raw, err := json.Marshal(map[string]any{[]string{"f", "x"}[via]: x})
	sym.Assert(err == nil, "harness")
	return vCopyRaw(schema, raw)
}

func vCopyRaw(schema string, raw []byte) (val string, ok bool, err error) {
	out, err := vTr(schema).Transform(raw)
	if err != nil {
		return "", false, err
	}
	s := string(out)
	if s == "null" {
		return "", false, nil
	}
	sym.Assert(len(s) > 6 && s[:5] == `{"f":` && s[len(s)-1] == '}', "the output is an object with the field")
	return s[5 : len(s)-1], true, nil
}

func vSame(typ string, via int, x any, wrap int, want string) {
	got, ok, err := vCopy(typ, via, x, wrap)
	sym.Assert(err == nil && ok, "a value with a counterpart is converted")
	sym.Observe("got", got)
	sym.Assert(got == want, "the converted value is the counterpart")
	sym.Reach("converted")
}

// vNone checks that a value without counterpart does not appear.
func vNone(typ string, x any, wrap int) {
	_, ok, err := vCopy(typ, 0, x, wrap)
	sym.Assert(err == nil && !ok, "a value without counterpart is left out")
	sym.Reach("none")
}

// Verif_C06_bool checks booleans.
// Bounds: both booleans, each type, from the same path and through a transform, plain or in one or two nested one-element lists.
func Verif_C06_bool() {
	b := sym.Bool("b")
	via, wrap := sym.Choose("via", 2), sym.Choose("wrap", 3)
	typ := vTypes[sym.Choose("type", 5)]
	if typ == "date-time" {
		vNone(typ, b, wrap)
		return
	}
	want := "false"
	if b {
		want = "true"
	}
	switch typ {
	case "string":
		want = `"` + want + `"`
	case "number", "integer":
		want = "0"
		if b {
			want = "1"
		}
	}
	vSame(typ, via, b, wrap, want)
}

// Verif_C06_int checks whole numbers.
// Bounds: every integer of up to 8 digits (thorough: 12) of either sign; each type but date-time; same path or transform; wrapped in lists or not.
func Verif_C06_int() {
	lim := 99999999
	if sym.Tier() > 0 {
		lim = 999999999999
	}
	n := sym.Int("n", -lim, lim)
	typ := vTypes[sym.Choose("type", 4)]
	want := strconv.Itoa(n)
	switch typ {
	case "string":
		want = `"` + want + `"`
	case "boolean":
		want = "false"
		if n > 0 {
			want = "true"
		}
	}
	vSame(typ, sym.Choose("via", 2), n, sym.Choose("wrap", 3), want)
}

// Verif_C06_decimal checks numbers with decimals.
// Bounds: the JSON texts d.d, d.dd, dd.d and their negatives with every digit symbolic, the last not 0; string, number and boolean fields.
func Verif_C06_decimal() {
	shape := [][2]int{{1, 1}, {1, 2}, {2, 1}}[sym.Choose("shape", 3)]
	lo := byte('0')
	if shape[0] == 2 {
		lo = '1'
	}
	num := sym.StrN("w", 1, lo, '9')
	if shape[0] == 2 {
		num += sym.StrN("w2", 1, '0', '9')
	}
	num += "."
	if shape[1] == 2 {
		num += sym.StrN("f1", 1, '0', '9')
	}
	num += sym.StrN("f2", 1, '1', '9')
	neg := sym.Choose("neg", 2) == 1
	if neg {
		num = "-" + num
	}
	typ := vTypes[sym.Choose("type", 3)]
	want := num
	switch typ {
	case "string":
		want = `"` + num + `"`
	case "boolean":
		want = "true"
		if neg {
			want = "false"
		}
	}
	got, ok, err := vCopyRaw(`{"type":"object","properties":{"f":`+vScalar(typ, "")+`}}`, []byte(`{"f":`+num+`}`))
	sym.Assert(err == nil && ok, "a number with decimals is converted")
	sym.Assert(got == want, "the converted value is the counterpart")
	sym.Observe("got", got)
	sym.Reach("converted")
}

// Verif_C06_notations checks numbers in the notations of JSON.
// Bounds: a list of numbers with exponents, of large and small magnitude, as number, text and boolean.
func Verif_C06_notations() {
	c := [][3]string{
		{"1e3", "1000", "1000"}, {"1E+2", "100", "100"}, {"25e-1", "2.5", "2.5"}, {"-0", "-0", "-0"}, {"1e-7", "1e-7", "0.0000001"}, {"-1.5e300", "-1.5e+300", "-15" + vZeros(299)},
		{"9007199254740992", "9007199254740992", "9007199254740992"}, {"1e21", "1e+21", "1000000000000000000000"}, {"123456789012345680", "123456789012345680", "123456789012345680"}, {"0.1", "0.1", "0.1"}, {"-4e-3", "-0.004", "-0.004"},
	}[sym.Choose("number", 11)]
	typ := vTypes[sym.Choose("type", 3)]
	want := c[1]
	switch typ {
	case "string":
		want = `"` + c[2] + `"`
	case "boolean":
		want = "true"
		if c[0][0] == '-' {
			want = "false"
		}
	}
	got, ok, err := vCopyRaw(`{"type":"object","properties":{"f":`+vScalar(typ, "")+`}}`, []byte(`{"f":`+c[0]+`}`))
	sym.Assert(err == nil && ok, "a number is converted")
	sym.Assert(got == want, "the converted value is the counterpart")
	sym.Reach("converted")
}

func vZeros(n int) string {
	s := ""
	for ; n > 0; n-- {
		s += "0"
	}
	return s
}

// Verif_C06_tobool checks texts for boolean fields.
// Bounds: every text of 0 to 5 letters or digits.
func Verif_C06_tobool() {
	s := sym.StrIn("s", 5, '0', 'z')
	switch s {
	case "1", "t", "T", "TRUE", "true", "True":
		vSame("boolean", sym.Choose("via", 2), s, 0, "true")
	case "0", "f", "F", "FALSE", "false", "False", "":
		vSame("boolean", sym.Choose("via", 2), s, 0, "false")
	default:
		vNone("boolean", s, 0)
	}
}

// Verif_C06_tonum checks texts for number fields.
// Bounds: optional sign and 1 to 4 digits (thorough: 6) with an optional decimal point and 0 to 2 digits (thorough: 3) after it, every digit symbolic; same path or transform.
func Verif_C06_tonum() {
	sign := []string{"", "-", "+"}[sym.Choose("sign", 3)]
	digits := sym.StrN("d", 1+sym.Choose("n", 4+2*sym.Tier()), '0', '9')
	frac := sym.Choose("frac", 4+sym.Tier())
	text := sign + digits
	mag := 0
	for i := 0; i < len(digits); i++ {
		mag = mag*10 + int(digits[i]-'0')
	}
	fr := ""
	if frac > 0 {
		fr = sym.StrN("f", frac-1, '0', '9')
		text += "." + fr
	}
	// the counterpart is written without leading zeros and without zeros at the end of the decimals
	for len(fr) > 0 && fr[len(fr)-1] == '0' {
		fr = fr[:len(fr)-1]
	}
	want := strconv.Itoa(mag)
	if fr != "" {
		want += "." + fr
	}
	if sign == "-" && (mag != 0 || fr != "" || frac > 0) {
		want = "-" + want
	}
	typ := vTypes[[]int{1, 3}[sym.Choose("type", 2)]]
	vSame(typ, sym.Choose("via", 2), text, sym.Choose("wrap", 2), want)
}

// Verif_C06_bignum checks texts at the edges of the 64-bit range.
// Bounds: a list of texts.
func Verif_C06_bignum() {
	c := [][2]string{
		{"9223372036854775807", "9223372036854775807"}, {"-9223372036854775808", "-9223372036854775808"}, {"9223372036854775808", "9223372036854776000"},
		{"18446744073709551616", "18446744073709552000"}, {"1e5", "100000"}, {"5e-3", "0.005"}, {"0000000000000000000000012", "12"}, {"2147483648", "2147483648"},
	}[sym.Choose("text", 8)]
	vSame("number", sym.Choose("via", 2), c[0], 0, c[1])
}

// Verif_C06_notnum checks that texts which denote no number never become one.
// Bounds: every text of 1 to 3 characters (thorough: 4) between '*' and 'z' that is not a number in any notation.
func Verif_C06_notnum() {
	s := sym.StrIn("s", 3+sym.Tier(), '*', 'z')
	if s == "" {
		vNone("number", s, 0)
		return
	}
	if _, err := strconv.ParseFloat(s, 64); err == nil {
		sym.Skip()
	}
	vNone("number", s, sym.Choose("wrap", 2))
	_, ok, err := vCopy("number", 0, s, 0)
	sym.Assert(err == nil && !ok, "a text that is no number does not become one")
}

// Verif_C06_text checks that texts are copied unchanged.
// Bounds: every text of 0 to 3 printable characters or control characters (thorough: any byte below 128), string and date-time fields.
func Verif_C06_text() {
	s := sym.StrIn("s", 3, ' ', '~')
	if sym.Choose("control", 2) == 1 {
		s = sym.StrN("c", 1, 0, 127)
	}
	b, err := json.Marshal(s)
	sym.Assert(err == nil, "harness")
	vSame("string", sym.Choose("via", 2), s, sym.Choose("wrap", 2), string(b))
}

// Verif_C06_time checks date-times.
// Bounds: three days; either every hour, minute or second (one of them symbolic at a time, thorough: all) with 0 to 2 symbolic decimals, or nine of which the first and last are, and zone Z or
// +00:00, or three times of day with the zones ±hh:00 and ±hh:30, hh symbolic from 01 to 09.
func Verif_C06_time() {
	day := []string{"2006-01-02", "1969-12-31", "2024-02-29"}[sym.Choose("day", 3)]
	if sym.Choose("zoned", 2) == 1 {
		t := day + []string{"T00:00:00", "T23:59:59", "T11:30:00.5"}[sym.Choose("time", 3)]
		t += []string{"+", "-"}[sym.Choose("zsign", 2)] + "0" + sym.StrN("zh", 1, '1', '9') + ":" + []string{"00", "30"}[sym.Choose("zm", 2)]
		vSame("date-time", sym.Choose("via", 2), t, 0, `"`+t+`"`)
		return
	}
	part := 3
	if sym.Tier() == 0 {
		part = sym.Choose("part", 3)
	}
	two := func(i int, name string, hi byte, fixed string) string {
		if part != 3 && part != i {
			return fixed
		}
		return sym.StrN(name+"0", 1, '0', hi) + sym.StrN(name+"1", 1, '0', '9')
	}
	h := two(0, "h", '1', "13")
	if part == 0 && sym.Choose("late", 2) == 1 {
		h = "2" + sym.StrN("h2", 1, '0', '3')
	}
	t := day + "T" + h + ":" + two(1, "m", '5', "07") + ":" + two(2, "s", '5', "08")
	switch sym.Choose("frac", 4) {
	case 3:
		t += "." + sym.StrN("f0", 1, '0', '9') + "0009000" + sym.StrN("f8", 1, '1', '9')
	case 1:
		t += "." + sym.StrN("f", 1, '1', '9')
	case 2:
		t += "." + sym.StrN("f0", 1, '0', '9') + sym.StrN("f1", 1, '1', '9')
	}
	want := t + "Z"
	vSame("date-time", sym.Choose("via", 2), t+[]string{"Z", "+00:00"}[sym.Choose("zone", 2)], 0, `"`+want+`"`)
}

// Verif_C06_badtime checks that texts which are no date-time do not appear.
// Bounds: a valid time in which one character is replaced by any printable one that makes it invalid, and truncated ones.
func Verif_C06_badtime() {
	t := "2006-01-02T15:04:05Z"
	i := sym.Choose("at", len(t))
	c := sym.StrN("c", 1, ' ', '~')
	s := t[:i] + c + t[i+1:]
	if sym.Choose("cut", 2) == 1 {
		s = t[:i]
	}
	if _, err := time.Parse(time.RFC3339, s); err == nil {
		sym.Skip()
	}
	vNone("date-time", s, 0)
}

// Verif_C06_epoch checks date-times given as seconds.
// Bounds: five days before, at and after the epoch (case split), every second of the day, on a machine whose local time is not UTC.
func Verif_C06_epoch() {
	defer func(l *time.Location) { time.Local = l }(time.Local)
	time.Local = time.FixedZone("here", 5*3600+1800)
	c := []struct {
		base int
		day  string
	}{{0, "1970-01-01"}, {-86400, "1969-12-31"}, {951782400, "2000-02-29"}, {4102444800, "2100-01-01"}, {-2208988800, "1900-01-01"}}[sym.Choose("day", 5)]
	h, m, s := sym.Int("h", 0, 23), sym.Int("m", 0, 59), sym.Int("s", 0, 59)
	two := func(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }
	want := `"` + c.day + "T" + two(h) + ":" + two(m) + ":" + two(s) + `Z"`
	got, ok, err := vCopy("date-time", sym.Choose("via", 2), c.base+h*3600+m*60+s, 0)
	sym.Assert(err == nil && ok, "seconds are a date-time")
	sym.Assert(got == want, "the date-time is that many seconds after the epoch")
	sym.Reach("epoch")
}

// Verif_C06_other checks that values of other kinds do not appear in scalars.
// Bounds: objects, empty and nested empty lists, lists of null, as the value of a field of each type.
func Verif_C06_other() {
	x := []any{map[string]any{"q": 1}, map[string]any{}, []any{}, []any{[]any{}}, []any{map[string]any{}}, []any{nil}, nil}[sym.Choose("x", 7)]
	vNone(vTypes[sym.Choose("type", 5)], x, sym.Choose("wrap", 2))
}

// Verif_C06_list checks that a list stands for its first element.
// Bounds: lists of two or three elements and nested lists, numbers of one digit; number and string fields; same path or transform.
func Verif_C06_list() {
	n := sym.Int("n", -9, 9)
	x := []any{[]any{n, 77}, []any{n, "x", nil}, []any{[]any{n, 5}, 6}, []any{[]any{[]any{n}}}}[sym.Choose("x", 4)]
	if sym.Choose("type", 2) == 0 {
		vSame("number", sym.Choose("via", 2), x, 0, strconv.Itoa(n))
	} else {
		vSame("string", sym.Choose("via", 2), x, 0, `"`+strconv.Itoa(n)+`"`)
	}
}
