package transform

import (
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// Verif_C09_value checks the value of well-formed durations.
// Bounds: "MM:SS" and "HH:MM:SS" with 0 to 3 digits per part (quick: 0 to 2 for hours), every digit symbolic; plain string
// or wrapped in a one-element array.
func Verif_C09_value() {
	tr := vOp("integer", `{"type":"duration"}`)
	hmax := 2
	if sym.Tier() > 0 {
		hmax = 3
	}
	num := func(s string) int {
		n := 0
		for i := 0; i < len(s); i++ {
			n = n*10 + int(s[i]-'0')
		}
		return n
	}
	m := sym.StrIn("m", 3, '0', '9')
	s := sym.StrIn("s", 3, '0', '9')
	in := m + ":" + s
	want := num(m)*60 + num(s)
	if sym.Choose("parts", 2) == 1 {
		h := sym.StrIn("h", hmax, '0', '9')
		in = h + ":" + in
		want += num(h) * 3600
	}
	var x any = in
	if sym.Choose("wrapped", 2) == 1 {
		x = []any{in}
	}
	v, ok, err := vField(tr, x)
	sym.Assert(err == nil, "a well-formed duration is accepted")
	sym.Assert(ok, "a well-formed duration gives a value")
	sym.Assert(vIs(v, want), "the duration is 3600*HH + 60*MM + SS seconds")
	sym.Observe("v", vShow(v))
	sym.Reach("end")
}

// Verif_C09_malformed checks that anything else is an error.
// Bounds: strings of 1 to 4 bytes (thorough: 5) over the printable ASCII range '!'..'z', in a string field.
func Verif_C09_malformed() {
	tr := vOp("string", `{"type":"duration"}`)
	n := sym.Choose("n", 4+sym.Tier()) + 1
	in := sym.StrN("x", n, '!', 'z')
	colons := 0
	good := true
	for i := 0; i < len(in); i++ {
		if in[i] == ':' {
			colons++
		} else if in[i] < '0' || in[i] > '9' {
			good = false
		}
	}
	if colons < 1 || colons > 2 {
		good = false
	}
	_, ok, err := vField(tr, in)
	if good {
		sym.Assert(err == nil && ok, "a well formed duration is accepted")
		sym.Reach("good")
	} else {
		sym.Assert(err != nil, "a string which is not a duration is reported as an error")
		sym.Reach("bad")
	}
	sym.Observe("ok", vShow(err == nil))
}

// Verif_C09_types checks that values which are not strings are an error.
// Bounds: numbers in [-1000,1000], booleans, objects, arrays of two numbers.
func Verif_C09_types() {
	tr := vOp("integer", `{"type":"duration"}`)
	var x any
	switch sym.Choose("kind", 4) {
	case 0:
		x = sym.Int("n", -1000, 1000)
	case 1:
		x = sym.Bool("b")
	case 2:
		x = map[string]any{"k": "1:2"}
	case 3:
		x = []any{sym.Int("n", -9, 9), sym.Int("n", -9, 9)}
	}
	_, _, err := vField(tr, x)
	sym.Assert(err != nil, "a duration operation on a value which is not a string is an error")
	sym.Reach("end")
}

// Verif_C09_large checks that durations too large for an integer are not silently wrapped.
// Bounds: "H:00:00" and "M:00" with 15 to 20 digits, first digit 1 to 9, the others 9, 5 or 0 (a case split, no symbolic bytes).
func Verif_C09_large() {
	tr := vOp("integer", `{"type":"duration"}`)
	n := 15 + sym.Choose("digits", 6)
	rest := "950"[sym.Choose("rest", 3)]
	lead := byte('1' + sym.Choose("lead", 9))
	s := string(lead)
	big := float64(lead - '0')
	for i := 1; i < n; i++ {
		s += string(rest)
		big = big*10 + float64(rest-'0')
	}
	scale := 60.0
	in := s + ":00"
	if sym.Choose("hours", 2) == 1 {
		scale = 3600
		in = s + ":00:00"
	}
	v, ok, err := vField(tr, in)
	if err != nil {
		sym.Assert(big*scale > 9.2e18, "a duration that can be represented is accepted")
		sym.Reach("rejected")
		return
	}
	f, isNum := v.(float64)
	sym.Assert(ok && isNum && f >= big*scale*0.999 && f <= big*scale*1.001, "a duration too large to be represented is an error, not a wrapped number")
	sym.Reach("accepted")
}

// Verif_C09_edge checks the exact largest duration.
// Bounds: "H:MM:SS" with H from 2562047788015200 to 2562047788015299 and any two digits for MM and SS, around the largest
// integer of 64 bits; and the hours 153722867280912929 to 153722867280912931, around as many minutes.
func Verif_C09_edge() {
	tr := vOp("integer", `{"type":"duration"}`)
	h, m, s := sym.StrN("h", 2, '0', '9'), sym.StrN("m", 2, '0', '9'), sym.StrN("s", 2, '0', '9')
	num := func(t string) uint64 { return uint64(t[0]-'0')*10 + uint64(t[1]-'0') }
	if sym.Choose("minutes", 2) == 1 {
		_, _, err := vField(tr, "1537228672809129"+[]string{"29", "30", "31"}[sym.Choose("hours", 3)]+":"+m+":"+s)
		sym.Assert(err != nil, "a duration too large to be represented is an error")
		return
	}
	total := (25620477880152*100+num(h))*3600 + num(m)*60 + num(s)
	v, ok, err := vField(tr, "25620477880152"+h+":"+m+":"+s)
	if err != nil {
		sym.Assert(total > 1<<63-1, "a duration that can be represented is accepted")
		sym.Reach("rejected")
		return
	}
	f, isNum := v.(float64)
	sym.Assert(total <= 1<<63-1, "a duration too large to be represented is an error")
	sym.Assert(ok && isNum && f > 9.2e18, "a duration is its number of seconds")
	sym.Reach("accepted")
}
