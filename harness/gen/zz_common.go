package gencheck

import (
	"errors"
	"io"
	"math"
	"time"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// val is a value as it is expected to be read back.
type val struct {
	kind string // null bool int float string list record map
	b    bool
	i    int64
	f    float64
	s    string
	keys []string
	vals []*val
}

func record() *val { return &val{kind: "record"} }
func list() *val   { return &val{kind: "list"} }
func null() *val   { return &val{kind: "null"} }

func (v *val) add(name string, c *val) { v.keys, v.vals = append(v.keys, name), append(v.vals, c) }
func (v *val) item(c *val)             { v.vals = append(v.vals, c) }

func (v *val) get(name string) *val {
	for i, k := range v.keys {
		if k == name {
			return v.vals[i]
		}
	}
	return nil
}

func alloc[T any](*T) *T    { return new(T) }
func grow[T any](s []T) []T { return append(s, *new(T)) }

// builder fills a value. One of its places is arbitrary, the others have different fixed values.
type builder struct {
	n, sel int
	empty  bool // nothing but zero values
	where  string
}

// here reports whether the next place is the arbitrary one.
func (b *builder) here(path string) bool {
	b.n++
	if b.n-1 == b.sel {
		b.where = path
		return true
	}
	return false
}

// present tells whether a pointer is not nil.
func (b *builder) present(path string) bool {
	if b.here(path) {
		return sym.Choose("present", 2) == 1
	}
	return !b.empty
}

// length is the length of a list.
func (b *builder) length(path string) int {
	if b.here(path) {
		return sym.Choose("length", 3)
	}
	if b.empty {
		return 0
	}
	return 2
}

func (b *builder) str(any bool) string {
	if any {
		lens := []int{0, 1, 2}
		if sym.Tier() > 0 {
			lens = []int{0, 1, 2, 3, 31, 32, 127, 128, 255, 256}
		}
		return sym.StrN("text", lens[sym.Choose("bytes", len(lens))], 0, 255)
	}
	return "s" + string([]byte{byte('a' + b.n/26%26), byte('a' + b.n%26)})
}

func (b *builder) int(any bool) int64 {
	if any {
		return int64(sym.Int("integer", math.MinInt64, math.MaxInt64))
	}
	return int64(1000 + b.n)
}

func (b *builder) float(any bool) float64 {
	if any {
		f := math.Float64frombits(uint64(sym.Int("bits of the number", math.MinInt64, math.MaxInt64)))
		sym.Assume(f == f)
		return f
	}
	return float64(b.n) + 0.5
}

func (b *builder) bool(any bool) bool {
	if any {
		return sym.Bool("boolean")
	}
	return true
}

func (b *builder) time(any bool) (time.Time, int64) {
	s := int64(1600000000 + b.n)
	ms := int64(b.n % 1000)
	if any {
		s = int64(sym.Int("seconds", -62135596800, 253402300799))
		ms = int64(sym.Int("milliseconds", 0, 999))
	}
	return time.Unix(s, ms*1000000).UTC(), s*1000 + ms
}

// leaf fills a field that is no object and no list.
func (b *builder) leaf(path string, p any, w *val, name string) {
	any := b.here(path)
	isNil := b.empty
	switch p.(type) {
	case **string, **int64, **float64, **bool, **time.Time:
		if any {
			isNil = sym.Choose("nil", 2) == 1
		}
	}
	w.add(name, b.scalar(p, any, isNil))
}

// scalar fills a variable. A nil pointer is null.
func (b *builder) scalar(p any, any, isNil bool) *val {
	switch x := p.(type) {
	case *string:
		if !b.empty {
			*x = b.str(any)
		}
		return &val{kind: "string", s: *x}
	case *int64:
		if !b.empty {
			*x = b.int(any)
		}
		return &val{kind: "int", i: *x}
	case *float64:
		if !b.empty {
			*x = b.float(any)
		}
		return &val{kind: "float", f: *x}
	case *bool:
		if !b.empty {
			*x = b.bool(any)
		}
		return &val{kind: "bool", b: *x}
	case *time.Time:
		if b.empty {
			return b.timeVal(time.Time{}, -62135596800000)
		}
		var ms int64
		*x, ms = b.time(any)
		return b.timeVal(*x, ms)
	case *map[string]string:
		v := &val{kind: "map"}
		n := 2
		if any {
			n = sym.Choose("entries", 3)
		}
		if b.empty {
			n = 0
		}
		if n > 0 {
			*x = map[string]string{}
		}
		for i := 0; i < n; i++ {
			k, s := "k"+string([]byte{byte('a' + i)}), b.str(any && i == 0)
			(*x)[k] = s
			v.add(k, &val{kind: "string", s: s})
		}
		return v
	}
	if isNil {
		return null()
	}
	switch x := p.(type) {
	case **string:
		*x = new(string)
		return b.scalar(*x, any, false)
	case **int64:
		*x = new(int64)
		return b.scalar(*x, any, false)
	case **float64:
		*x = new(float64)
		return b.scalar(*x, any, false)
	case **bool:
		*x = new(bool)
		return b.scalar(*x, any, false)
	case **time.Time:
		*x = new(time.Time)
		return b.scalar(*x, any, false)
	}
	sym.Fail("a generated field has a type that is none of the types of its kind")
	return nil
}

func (b *builder) timeVal(t time.Time, ms int64) *val { return &val{kind: "time", i: ms} }

// list fills a list of values that are no objects.
func (b *builder) list(path string, p any, w *val, name string) {
	l := list()
	n, any := 2, b.here(path)
	if any {
		n = sym.Choose("length", 3)
	}
	if b.empty {
		n = 0
	}
	for i := 0; i < n; i++ {
		last, isNil := any && i == n-1, false
		switch p.(type) {
		case *[]*string, *[]*int64, *[]*float64, *[]*bool, *[]*time.Time:
			isNil = any && sym.Choose("nil", 2) == 1
		}
		var c *val
		switch x := p.(type) {
		case *[]string:
			*x = grow(*x)
			c = b.scalar(&(*x)[i], last, isNil)
		case *[]int64:
			*x = grow(*x)
			c = b.scalar(&(*x)[i], last, isNil)
		case *[]float64:
			*x = grow(*x)
			c = b.scalar(&(*x)[i], last, isNil)
		case *[]bool:
			*x = grow(*x)
			c = b.scalar(&(*x)[i], last, isNil)
		case *[]time.Time:
			*x = grow(*x)
			c = b.scalar(&(*x)[i], last, isNil)
		case *[]*string:
			*x = grow(*x)
			c = b.scalar(&(*x)[i], last, isNil)
		case *[]*int64:
			*x = grow(*x)
			c = b.scalar(&(*x)[i], last, isNil)
		case *[]*float64:
			*x = grow(*x)
			c = b.scalar(&(*x)[i], last, isNil)
		case *[]*bool:
			*x = grow(*x)
			c = b.scalar(&(*x)[i], last, isNil)
		case *[]*time.Time:
			*x = grow(*x)
			c = b.scalar(&(*x)[i], last, isNil)
		default:
			sym.Fail("a generated field has a type that is none of the types of its kind")
		}
		l.item(c)
	}
	w.add(name, l)
}

// written is a value of a generated struct.
type written = any

// tcase is a generated struct.
type tcase struct {
	name, known string
	nested      bool     // a field holds a struct itself
	inner       []string // embedded structs
	fill        func(b *builder) (written, *val)
	none        written                                            // a nil pointer
	bulk        func(w io.Writer, t time.Time, vs []written) error // writes values with the bulk writer
	fresh       func() written
}

var cases []*tcase

// choose chooses a case and a place in it that is arbitrary.
func choose(all bool) (*tcase, *builder) {
	c := cases[sym.Choose("case", len(cases))]
	b := &builder{sel: -1}
	c.fill(b)
	n := b.n
	b = &builder{sel: -1}
	if all {
		b.sel = sym.Choose("place", n)
	}
	return c, b
}

// early is the result of a bulk writer that ends before all items are sent.
func early(err error, open bool) error {
	if !open || err == nil {
		return errors.New("the bulk writer ended before it was told to")
	}
	return err
}

// drain waits for the end of a bulk writer.
func drain(errs <-chan error) error {
	var first error
	for err := range errs {
		if first == nil {
			first = err
		}
	}
	return first
}

// vFailures are the cases whose code is not generated or does not compile.
func vFailures() {
	names := failed()
	if k := sym.Choose("failure", len(names)+1); k < len(names) {
		n := names[k]
		sym.Observe("case", n+": "+failures[n])
		if id, ok := knowns[n]; ok {
			sym.Finding(id, false, "no code that compiles is generated for a schema")
		} else {
			sym.Fail("no code that compiles is generated for a schema")
		}
	}
	sym.Reach("the failures")
}

func failed() []string {
	var names []string
	for n := range failures {
		i := 0
		for i < len(names) && names[i] < n {
			i++
		}
		names = append(names[:i], append([]string{n}, names[i:]...)...)
	}
	return names
}
