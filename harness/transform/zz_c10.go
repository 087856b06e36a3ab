package transform

import (
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

func vLower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func vUpper(c byte) byte {
	if c >= 'a' && c <= 'z' {
		return c - 32
	}
	return c
}

func vMapBytes(s string, f func(byte) byte) string {
	out := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = f(s[i])
	}
	return string(out)
}

// Verif_C10_case checks changeCase.
// Bounds: strings of 0 to 4 bytes (thorough: 6) over '?'..'{', both directions, string field.
func Verif_C10_case() {
	s := sym.StrIn("s", 4+2*sym.Tier(), '?', '{')
	to, f := "lower", vLower
	if sym.Choose("to", 2) == 1 {
		to, f = "upper", vUpper
	}
	v, ok, err := vField(vOp("string", `{"type":"changeCase","args":{"to":"`+to+`"}}`), s)
	sym.Assert(err == nil && ok, "changing the case of a string gives a string")
	sym.Assert(vIs(v, vMapBytes(s, f)), "every letter has the requested case and nothing else changes")
	sym.Observe("v", vShow(v))
	sym.Reach("end")
}

// Verif_C10_letters checks changeCase on letters outside ASCII.
// Bounds: twelve letters and signs of several scripts (case split), title-case digraphs and letters with a single case among them, between
// two symbolic ASCII letters, both directions.
func Verif_C10_letters() {
	c := [][3]string{{"é", "é", "É"}, {"Ñ", "ñ", "Ñ"}, {"ω", "ω", "Ω"}, {"Σ", "σ", "Σ"}, {"ж", "ж", "Ж"}, {"ǆ", "ǆ", "Ǆ"}, {"ǅ", "ǆ", "Ǆ"},
		{"ა", "ა", "Ა"}, {"ſ", "ſ", "S"}, {"ÿ", "ÿ", "Ÿ"}, {"日", "日", "日"}, {"😀", "😀", "😀"}}[sym.Choose("letter", 12)]
	a, b := sym.StrN("a", 1, '?', '{'), sym.StrN("b", 1, '?', '{')
	to, want := "lower", vMapBytes(a, vLower)+c[1]+vMapBytes(b, vLower)
	if sym.Choose("to", 2) == 1 {
		to, want = "upper", vMapBytes(a, vUpper)+c[2]+vMapBytes(b, vUpper)
	}
	v, ok, err := vField(vOp("string", `{"type":"changeCase","args":{"to":"`+to+`"}}`), a+c[0]+b)
	sym.Assert(err == nil && ok, "changing the case of a string gives a string")
	sym.Assert(vIs(v, want), "every letter has the requested case and nothing else changes")
	sym.Observe("v", vShow(v))
	sym.Reach("end")
}

// vSplit is the specification of splitting on a non-empty separator.
func vSplit(s, on string) []any {
	var out []any
	start := 0
	for i := 0; i+len(on) <= len(s); {
		if s[i:i+len(on)] == on {
			out = append(out, s[start:i])
			i += len(on)
			start = i
		} else {
			i++
		}
	}
	return append(out, s[start:])
}

// Verif_C10_split checks split.
// Bounds: strings of 0 to 4 printable bytes (thorough: 6), six separators of one or two bytes.
func Verif_C10_split() {
	s := sym.StrIn("s", 4+2*sym.Tier(), ' ', '~')
	on := []string{",", ",-", "--", " ", "ab", "."}[sym.Choose("on", 6)]
	v, ok, err := vField(vOp("array", `{"type":"split","args":{"on":"`+on+`"}}`), s)
	sym.Assert(err == nil, "splitting a string is not an error")
	if s == "" {
		sym.Assert(!ok, "splitting an empty string gives no elements")
		sym.Reach("empty")
		return
	}
	want := vSplit(s, on)
	sym.Assert(ok && vIs(v, want), "split gives the pieces between the separators, in order")
	sym.Observe("v", vShow(v))
	sym.Reach("end")
}

// Verif_C10_splitmany checks split on a text with many pieces.
// Bounds: 3 to 40 pieces, the second and the last but one of a symbolic printable character.
func Verif_C10_splitmany() {
	n := []int{3, 9, 17, 40}[sym.Choose("n", 4)]
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ","
		}
		if i == 1 || i == n-2 {
			s += sym.StrN("s", 1, ' ', '~')
		} else {
			s += string([]byte{byte('a' + i%26), byte('a' + i/26)})
		}
	}
	v, ok, err := vField(vOp("array", `{"type":"split","args":{"on":","}}`), s)
	sym.Assert(err == nil, "splitting a string is not an error")
	sym.Assert(ok && vIs(v, vSplit(s, ",")), "split gives the pieces between the separators, in order")
	sym.Reach("end")
}

// Verif_C10_splitempty checks that the pieces of an empty string are an empty list for later operations too.
// Bounds: split followed by convertToBool, strings of 0 to 3 printable bytes.
func Verif_C10_splitempty() {
	s := sym.StrIn("s", 3, ' ', '~')
	v, ok, err := vField(vOp("string", `{"type":"split","args":{"on":","}},{"type":"convertToBool"}`), s)
	sym.Assert(err == nil && ok, "a split value can be converted to a boolean")
	sym.Assert(vIs(v, s != ""), "the pieces of an empty string are an empty list")
	sym.Reach("end")
}

// Verif_C10_replace checks replace on small regular expressions with a hand written specification.
// Bounds: strings of 0 to 4 bytes (thorough: 6) over 'a'..'d'; five expressions, with and without groups, anchors and repetition.
func Verif_C10_replace() {
	s := sym.StrIn("s", 4+2*sym.Tier(), 'a', 'd')
	re, nw, want := "", "", ""
	switch sym.Choose("re", 5) {
	case 0: // every b goes
		re = "b"
		for i := 0; i < len(s); i++ {
			if s[i] != 'b' {
				want += s[i : i+1]
			}
		}
	case 1: // groups swapped
		re, nw = "(a)(b|c)", "$2$1"
		for i := 0; i < len(s); i++ {
			if i+1 < len(s) && s[i] == 'a' && (s[i+1] == 'b' || s[i+1] == 'c') {
				want += s[i+1:i+2] + "a"
				i++
			} else {
				want += s[i : i+1]
			}
		}
	case 2: // anchored
		re, nw = "^a", "Z"
		want = s
		if s != "" && s[0] == 'a' {
			want = "Z" + s[1:]
		}
	case 3: // repetition is greedy
		re, nw = "[ab]+", "-"
		for i := 0; i < len(s); i++ {
			if s[i] == 'a' || s[i] == 'b' {
				if i == 0 || s[i-1] != 'a' && s[i-1] != 'b' {
					want += "-"
				}
			} else {
				want += s[i : i+1]
			}
		}
	case 4: // end anchor
		re, nw = "d$", "end"
		want = s
		if s != "" && s[len(s)-1] == 'd' {
			want = s[:len(s)-1] + "end"
		}
	}
	v, ok, err := vField(vOp("string", `{"type":"replace","args":{"regex":"`+re+`","new":"`+nw+`"}}`), s)
	sym.Assert(err == nil && ok, "replacing in a string gives a string")
	sym.Assert(vIs(v, want), "every match of the expression is replaced, and nothing else")
	sym.Observe("v", vShow(v))
	sym.Reach("end")
}

// Verif_C10_camel checks toCamelCase.
// Bounds: strings of 0 to 4 bytes (thorough: 6) over 'Y'..'c' with the delimiter "_", and over '+'..'0' plus letters with "-".
func Verif_C10_camel() {
	s := sym.StrIn("s", 4+2*sym.Tier(), 'Y', 'c')
	var want []byte
	firstWord, start := true, true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			firstWord, start = false, true
			continue
		}
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		switch {
		case firstWord:
			c = vLower(c)
		case start:
			c = vUpper(c)
		}
		start = !letter
		want = append(want, c)
	}
	v, ok, err := vField(vOp("string", `{"type":"toCamelCase","args":{"delimiter":"_"}}`), s)
	sym.Assert(err == nil && ok, "a string in camel case is a string")
	sym.Assert(vIs(v, string(want)), "the first word is in lower case, the others start in upper case, and delimiters go")
	sym.Observe("v", vShow(v))
	sym.Reach("end")
}

// Verif_C10_time checks timeParse.
// Bounds: HH:05 and 13:MM with two symbolic digits, or the byte before or after the digits; layouts "15.04" and "04 15".
func Verif_C10_time() {
	d1, d2 := sym.Byte("d1", '/', ':'), sym.Byte("d2", '0', '9')
	h1, h2, m1, m2 := d1, d2, byte('0'), byte('5')
	if sym.Choose("part", 2) == 1 {
		h1, h2, m1, m2 = '1', '3', d1, d2
	}
	in := string([]byte{h1, h2, ':', m1, m2})
	layout, want := "15.04", string([]byte{h1, h2, '.', m1, m2})
	if sym.Choose("layout", 2) == 1 {
		layout, want = "04 15", string([]byte{m1, m2, ' ', h1, h2})
	}
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	good := digit(h1) && digit(h2) && digit(m1) && (h1-'0')*10+h2-'0' < 24 && m1 < '6'
	v, ok, err := vField(vOp("string", `{"type":"timeParse","args":{"format":"15:04","layout":"`+layout+`"}}`), in)
	if !good {
		sym.Assert(err != nil, "a string which is not a time of the format is an error")
		sym.Reach("bad")
		return
	}
	sym.Assert(err == nil && ok && vIs(v, want), "a time is rewritten in the layout")
	sym.Observe("v", vShow(v))
	sym.Reach("good")
}

// Verif_C10_html checks removeHTML.
// Bounds: text of 1 to 3 bytes over 'a'..'d' (all symbolic) in six arrangements of tags, attributes and entities.
func Verif_C10_html() {
	a := sym.StrN("a", 1, 'a', 'd')
	b := sym.StrN("b", 1+sym.Choose("blen", 2), 'a', 'd')
	in, want := "", ""
	switch sym.Choose("form", 6) {
	case 0:
		in, want = a+b, a+b
	case 1:
		in, want = "<p>"+a+"</p>", a
	case 2:
		in, want = "<p>"+a+"</p><p>"+b+"</p>", a+" "+b
	case 3:
		in, want = `<a href="http://x/y">`+a+"</a>", a
	case 4:
		in, want = a+" &amp; "+b, a+" & "+b
	case 5:
		in, want = a+"<br/>"+b, a+" "+b
	}
	v, ok, err := vField(vOp("string", `{"type":"removeHTML"}`), in)
	sym.Assert(err == nil && ok, "removing HTML from a string gives a string")
	sym.Assert(vIs(v, want), "the text is kept, tags are gone and entities are decoded")
	sym.Observe("v", vShow(v))
	sym.Reach("end")
}

var vStringOps = []string{
	`{"type":"changeCase","args":{"to":"lower"}}`,
	`{"type":"split","args":{"on":","}}`,
	`{"type":"replace","args":{"regex":"a","new":"b"}}`,
	`{"type":"toCamelCase","args":{"delimiter":"-"}}`,
	`{"type":"timeParse","args":{"format":"2006","layout":"06"}}`,
	`{"type":"removeHTML"}`,
}

// Verif_C10_types checks that string operations reject other values.
// Bounds: the six string operations on objects, numbers in [-99,99], booleans and arrays of two, in an array field; null and missing give nothing.
func Verif_C10_types() {
	tr := vOp("array", vStringOps[sym.Choose("op", len(vStringOps))])
	var x any
	switch sym.Choose("kind", 5) {
	case 0:
		x = sym.Int("n", -99, 99)
	case 1:
		x = sym.Bool("b")
	case 2:
		x = map[string]any{"k": "v"}
	case 3:
		x = []any{"1", "2"}
	case 4:
		_, ok, err := vField(tr, nil)
		sym.Assert(err == nil && !ok, "an operation is not run on null, and the field is left out")
		sym.Reach("null")
		return
	}
	_, _, err := vField(tr, x)
	sym.Assert(err != nil, "a string operation on a value which is not a string is an error")
	sym.Reach("end")
}

// Verif_C10_chain checks that operations are applied in the order they are written.
// Bounds: two of the operations (lower, replace a by B, replace B by x, upper) in every order on strings of 0 to 2 bytes over 'A'..'c'.
func Verif_C10_chain() {
	s := sym.StrIn("s", 2, 'A', 'c')
	ops := []string{
		`{"type":"changeCase","args":{"to":"lower"}}`,
		`{"type":"replace","args":{"regex":"a","new":"B"}}`,
		`{"type":"replace","args":{"regex":"B","new":"x"}}`,
		`{"type":"changeCase","args":{"to":"upper"}}`,
	}
	apply := func(i int, c byte) byte {
		switch i {
		case 0:
			return vLower(c)
		case 1:
			if c == 'a' {
				return 'B'
			}
		case 2:
			if c == 'B' {
				return 'x'
			}
		case 3:
			return vUpper(c)
		}
		return c
	}
	i, j := sym.Choose("i", 4), sym.Choose("j", 4)
	v, ok, err := vField(vOp("string", ops[i]+","+ops[j]), s)
	sym.Assert(err == nil && ok, "a chain of string operations gives a string")
	want := vMapBytes(s, func(c byte) byte { return apply(j, apply(i, c)) })
	sym.Assert(vIs(v, want), "each operation works on the result of the one before it")
	sym.Reach("end")
}
