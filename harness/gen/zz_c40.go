package gencheck

import (
	"bytes"
	"io"
	"math"

	"github.com/GannettDigital/jstransform/zzverif/sym"
	"github.com/GannettDigital/msgp/msgp"
)

// packed are the methods of a generated struct.
type packed interface {
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Encodable
	msgp.Decodable
	msgp.Sizer
}

// unpacker reads MessagePack.
type unpacker struct{ b []byte }

func (u *unpacker) take(n int) []byte {
	if n > len(u.b) {
		sym.Fail("MessagePack data end too early")
	}
	s := u.b[:n]
	u.b = u.b[n:]
	return s
}

// uint reads n bytes.
func (u *unpacker) uint(n int) uint64 {
	var v uint64
	for _, c := range u.take(n) {
		v = v<<8 | uint64(c)
	}
	return v
}

func (u *unpacker) value() *val {
	c := u.take(1)[0]
	switch {
	case c < 0x80:
		return &val{kind: "int", i: int64(c)}
	case c < 0x90:
		return u.mapOf(int(c & 15))
	case c < 0xa0:
		return u.list(int(c & 15))
	case c < 0xc0:
		return &val{kind: "string", s: string(u.take(int(c & 31)))}
	case c >= 0xe0:
		return &val{kind: "int", i: int64(int8(c))}
	}
	switch c {
	case 0xc0:
		return null()
	case 0xc2, 0xc3:
		return &val{kind: "bool", b: c == 0xc3}
	case 0xcb:
		return &val{kind: "float", f: math.Float64frombits(u.uint(8))}
	case 0xcc:
		return &val{kind: "int", i: int64(u.uint(1))}
	case 0xcd:
		return &val{kind: "int", i: int64(u.uint(2))}
	case 0xce:
		return &val{kind: "int", i: int64(u.uint(4))}
	case 0xcf:
		v := u.uint(8)
		sym.Assert(v>>63 == 0, "an integer of MessagePack data is too large")
		return &val{kind: "int", i: int64(v)}
	case 0xd0:
		return &val{kind: "int", i: int64(int8(u.uint(1)))}
	case 0xd1:
		return &val{kind: "int", i: int64(int16(u.uint(2)))}
	case 0xd2:
		return &val{kind: "int", i: int64(int32(u.uint(4)))}
	case 0xd3:
		return &val{kind: "int", i: int64(u.uint(8))}
	case 0xd9:
		return &val{kind: "string", s: string(u.take(int(u.uint(1))))}
	case 0xda:
		return &val{kind: "string", s: string(u.take(int(u.uint(2))))}
	case 0xdc:
		return u.list(int(u.uint(2)))
	case 0xde:
		return u.mapOf(int(u.uint(2)))
	case 0xc7:
		n, t := u.uint(1), u.uint(1)
		sym.Assert(n == 12 && t == 5, "MessagePack data have an unknown extension")
		s, ns := int64(u.uint(8)), int64(u.uint(4))
		return &val{kind: "time", i: s*1000 + ns/1000000}
	}
	sym.Fail("MessagePack data have an unknown kind of value")
	return nil
}

func (u *unpacker) list(n int) *val {
	v := list()
	for ; n > 0; n-- {
		v.item(u.value())
	}
	return v
}

func (u *unpacker) mapOf(n int) *val {
	v := record()
	for ; n > 0; n-- {
		k := u.value()
		sym.Assert(k.kind == "string", "MessagePack data have a key that is no text")
		sym.Assert(v.get(k.s) == nil, "MessagePack data have a key twice")
		v.add(k.s, u.value())
	}
	return v
}

// find finds a field, in the struct or in one that is embedded in it.
func find(r *val, name string, inner []string) *val {
	if v := r.get(name); v != nil {
		return v
	}
	for _, k := range inner {
		if in := r.get(k); in != nil {
			if v := find(in, name, inner); v != nil {
				return v
			}
		}
	}
	return nil
}

// equal checks a value that was read back.
func equal(got, want *val, inner []string) {
	if want.kind == "null" {
		sym.Assert(got.kind == "null", "a missing value is written as a value")
		return
	}
	kind := want.kind
	if kind == "map" {
		kind = "record"
	}
	if got.kind != kind {
		sym.Observe("got", got.kind)
		sym.Observe("want", want.kind)
		sym.Fail("a value is read back as another kind of value")
	}
	switch want.kind {
	case "bool":
		sym.Assert(got.b == want.b, "a boolean is read back as another")
	case "int":
		sym.Assert(got.i == want.i, "an integer is read back as another")
	case "time":
		sym.Assert(got.i == want.i, "a time is read back as another")
	case "float":
		sym.Assert(got.f == want.f, "a number is read back as another")
	case "string":
		sym.Assert(got.s == want.s, "a text is read back as another")
	case "list":
		if len(got.vals) != len(want.vals) {
			sym.Fail("a list is read back with another number of items")
		}
		for i, c := range want.vals {
			equal(got.vals[i], c, nil)
		}
	case "record", "map":
		for i, k := range want.keys {
			c := find(got, k, inner)
			if c == nil {
				sym.Fail("a field is not written")
			}
			equal(c, want.vals[i], nil)
		}
		if len(inner) == 0 {
			sym.Assert(len(got.keys) == len(want.keys), "a value is written that is in no field")
		}
	}
}

// slow gives one byte at a time.
type slow struct{ r io.Reader }

func (s slow) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1]
	}
	return s.r.Read(b)
}

func marshal(v written) []byte {
	b, err := v.(packed).MarshalMsg(nil)
	if err != nil {
		sym.Fail("a proper value is not written")
	}
	return b
}

// Verif_C40_builds: the generated code compiles.
//
// Bounds: the schemas and options of harness/gen/stage: every kind of property, required or not, null or not, as field, in
// lists, in objects, lists of objects and objects in these, up to four levels; renamed fields and structs; shared schemas and
// branches; a directory with what an earlier schema gave; options NoNestedStructs, Pointers, EmbedAllOf; with Avro as well or not.
func Verif_C40_builds() { vFailures() }

// Verif_C40_values: what is written is what is in the struct, and reading it gives it back.
//
// Bounds: the schemas and options as above; every field in turn arbitrary (texts of up to two bytes (thorough: up to 256),
// integers of 64 bits, every number but NaN, times of the years 1 to 9999 in milliseconds, lists and maps of up to two entries, pointers nil or
// not), the others with different fixed values, lists with two items; the struct that is read into new or filled with
// other values; bytes before and after the data.
func Verif_C40_values() {
	c, b := choose(true)
	v, want := c.fill(b)
	pre := []byte{1, 2}
	data, err := v.(packed).MarshalMsg(pre)
	if err != nil {
		sym.Fail("a proper value is not written")
	}
	sym.Assert(bytes.HasPrefix(data, pre), "data are not appended to what is before them")
	data = data[len(pre):]
	sym.Assert(len(data) <= v.(packed).Msgsize(), "a value needs more space than its maximum")
	u := &unpacker{data}
	got := u.value()
	sym.Assert(len(u.b) == 0, "data have more than a value")
	equal(got, want, c.inner)
	back := c.fresh()
	if sym.Choose("used", 2) == 1 {
		back, _ = c.fill(&builder{sel: -1, n: 100})
	}
	rest, err := back.(packed).UnmarshalMsg(append(append([]byte{}, data...), 3, 4, 5))
	if err != nil {
		sym.Fail("what was written is not read")
	}
	sym.Assert(string(rest) == "\x03\x04\x05", "reading does not leave what follows the value")
	u = &unpacker{marshal(back)}
	equal(u.value(), want, c.inner)
	sym.Reach("read back")
}

// Verif_C40_stream: writing to a stream gives the same data, and reading them from a stream the same value.
//
// Bounds: as above; the stream gives all data at once or byte by byte.
func Verif_C40_stream() {
	c, b := choose(false)
	b.empty = sym.Choose("empty", 2) == 1
	v, want := c.fill(b)
	var buf bytes.Buffer
	if err := msgp.Encode(&buf, v.(packed)); err != nil {
		sym.Fail("a proper value is not written to a stream")
	}
	sym.Assert(len(c.inner) == 0 || buf.Len() > 0, "nothing is written to a stream")
	u := &unpacker{buf.Bytes()}
	equal(u.value(), want, c.inner)
	sym.Assert(len(u.b) == 0, "data have more than a value")
	back := c.fresh()
	if sym.Choose("used", 2) == 1 {
		back, _ = c.fill(&builder{sel: -1, n: 100})
	}
	var r io.Reader = &buf
	if sym.Choose("slow", 2) == 1 {
		r = slow{r}
	}
	if err := msgp.Decode(r, back.(packed)); err != nil {
		sym.Fail("what was written to a stream is not read")
	}
	u = &unpacker{marshal(back)}
	equal(u.value(), want, c.inner)
	sym.Reach("read back")
}

// Verif_C40_cut: data that end too early are refused.
//
// Bounds: the schemas and options as above, with fixed values; the data cut at any byte.
func Verif_C40_cut() {
	c, b := choose(false)
	v, _ := c.fill(b)
	data := marshal(v)
	n := sym.Choose("bytes", len(data))
	_, err := c.fresh().(packed).UnmarshalMsg(data[:n:n])
	sym.Assert(err != nil, "data that end too early are read as a value")
	sym.Assert(msgp.Decode(bytes.NewReader(data[:n:n]), c.fresh().(packed)) != nil, "a stream that ends too early is read as a value")
	sym.Reach("refused")
}

// Verif_C40_unknown: fields that the struct does not have are skipped.
//
// Bounds: the schemas and options as above, with fixed values; an unknown field with a value of any kind before the others.
func Verif_C40_unknown() {
	c, b := choose(false)
	v, want := c.fill(b)
	data := marshal(v)
	u := &unpacker{data}
	n := 0
	switch h := u.take(1)[0]; {
	case h>>4 == 8:
		n = int(h & 15)
	case h == 0xde:
		n = int(u.uint(2))
	default:
		sym.Fail("a struct is not written as a map")
	}
	more := []byte{0xde, byte((n + 1) >> 8), byte(n + 1), 0xa7, 'u', 'n', 'k', 'n', 'o', 'w', 'n'}
	vals := []string{"\xc0", "\xc3", "\x05", "\xa1x", "\x91\x01", "\x81\xa1x\x01", "\xcb12345678", "\xc7\x0c\x05123456789012"}
	more = append(more, vals[sym.Choose("value", len(vals))]...)
	more = append(more, u.b...)
	back := c.fresh()
	if _, err := back.(packed).UnmarshalMsg(more); err != nil {
		sym.Fail("data with an unknown field are refused")
	}
	equal((&unpacker{marshal(back)}).value(), want, c.inner)
	back = c.fresh()
	if err := msgp.Decode(bytes.NewReader(more), back.(packed)); err != nil {
		sym.Fail("a stream with an unknown field is refused")
	}
	equal((&unpacker{marshal(back)}).value(), want, c.inner)
	sym.Reach("skipped")
}
