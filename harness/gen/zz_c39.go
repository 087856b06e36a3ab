package gencheck

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"hash/crc32"
	"io"
	"math"
	"time"

	"github.com/GannettDigital/jstransform/zzverif/sym"
	"github.com/golang/snappy"
)

// avroWriter are the methods of a generated struct.
type avroWriter interface {
	WriteAvroCF(io.Writer, time.Time) error
	WriteAvroDeletedCF(io.Writer, time.Time) error
}

// reader reads Avro.
type reader struct{ b []byte }

func (r *reader) byte() byte {
	if len(r.b) == 0 {
		sym.Fail("an Avro file ends too early")
	}
	c := r.b[0]
	r.b = r.b[1:]
	return c
}

func (r *reader) take(n int64) []byte {
	if n < 0 || n > int64(len(r.b)) {
		sym.Fail("an Avro file ends too early")
	}
	s := r.b[:n]
	r.b = r.b[n:]
	return s
}

func (r *reader) long() int64 {
	var v uint64
	for s := uint(0); ; s += 7 {
		if s > 63 {
			sym.Fail("an Avro number is too long")
		}
		c := r.byte()
		v |= uint64(c&0x7f) << s
		if c < 0x80 {
			break
		}
	}
	return int64(v>>1) ^ -int64(v&1)
}

// blocks reads the parts of an array or map.
func (r *reader) blocks(f func()) {
	for {
		n := r.long()
		if n == 0 {
			return
		}
		if n < 0 {
			n = -n
			r.long()
		}
		for ; n > 0; n-- {
			f()
		}
	}
}

// value reads a value of the type.
func (r *reader) value(t any, names map[string]any) *val {
	switch x := t.(type) {
	case string:
		switch x {
		case "null":
			return null()
		case "boolean":
			c := r.byte()
			sym.Assert(c < 2, "a boolean is neither true nor false")
			return &val{kind: "bool", b: c == 1}
		case "long":
			return &val{kind: "int", i: r.long()}
		case "double":
			return &val{kind: "float", f: math.Float64frombits(binary.LittleEndian.Uint64(r.take(8)))}
		case "string":
			return &val{kind: "string", s: string(r.take(r.long()))}
		}
		if names[x] == nil {
			sym.Fail("an Avro schema has an unknown type")
		}
		return r.value(names[x], names)
	case []any:
		i := r.long()
		if i < 0 || i >= int64(len(x)) {
			sym.Fail("a union has a type that is none of its types")
		}
		return r.value(x[i], names)
	case map[string]any:
		switch x["type"] {
		case "record":
			n := x["name"].(string)
			names[n] = x
			if ns, ok := x["namespace"].(string); ok {
				names[ns+"."+n] = x
			}
			v := record()
			for _, f := range x["fields"].([]any) {
				f := f.(map[string]any)
				c := r.value(f["type"], names)
				if c.kind == "int" && f["logicalType"] == "timestamp-millis" {
					c.kind = "time"
				}
				v.add(f["name"].(string), c)
			}
			return v
		case "array":
			v := list()
			r.blocks(func() { v.item(r.value(x["items"], names)) })
			return v
		case "map":
			v := &val{kind: "map"}
			r.blocks(func() {
				k := string(r.take(r.long()))
				v.add(k, r.value(x["values"], names))
			})
			return v
		}
		v := r.value(x["type"], names)
		if v.kind == "int" && x["logicalType"] == "timestamp-millis" {
			v.kind = "time"
		}
		return v
	}
	sym.Fail("an Avro schema has an unknown type")
	return nil
}

// file reads the records of an Avro container file.
func file(b []byte) []*val {
	r := &reader{b}
	sym.Assert(string(r.take(4)) == "Obj\x01", "an Avro file does not begin as one")
	meta := map[string]string{}
	r.blocks(func() {
		k := string(r.take(r.long()))
		meta[k] = string(r.take(r.long()))
	})
	sync := string(r.take(16))
	sym.Assert(meta["avro.codec"] == "snappy", "an Avro file is not compressed with snappy")
	var schema any
	if err := json.Unmarshal([]byte(meta["avro.schema"]), &schema); err != nil {
		sym.Fail("the schema of an Avro file is not JSON")
	}
	var out []*val
	for len(r.b) > 0 {
		n := r.long()
		data := r.take(r.long())
		sym.Assert(string(r.take(16)) == sync, "the parts of an Avro file are not separated")
		if len(data) < 4 {
			sym.Fail("a part of an Avro file has no checksum")
		}
		plain, err := snappy.Decode(nil, data[:len(data)-4])
		if err != nil {
			sym.Fail("a part of an Avro file is not snappy")
		}
		sym.Assert(crc32.ChecksumIEEE(plain) == binary.BigEndian.Uint32(data[len(data)-4:]), "a part of an Avro file has another checksum")
		rr := &reader{plain}
		for ; n > 0; n-- {
			out = append(out, rr.value(schema, map[string]any{}))
		}
		sym.Assert(len(rr.b) == 0, "a part of an Avro file has more than its records")
	}
	return out
}

// same checks a value that was read back.
func same(got, want *val) {
	switch want.kind {
	case "null":
		sym.Assert(got.kind == "null" || got.kind == "bool" && !got.b, "a missing value is written as a value")
		return
	}
	if got.kind != want.kind {
		sym.Observe("got", got.kind)
		sym.Observe("want", want.kind)
		sym.Fail("a value is read back as another kind of value")
	}
	switch want.kind {
	case "bool":
		sym.Assert(got.b == want.b, "a boolean is read back as another")
	case "int":
		sym.Assert(got.i == want.i, "an integer is read back as another")
	case "time":
		sym.Assert(got.i == want.i, "a time is read back as another")
	case "float":
		sym.Assert(got.f == want.f, "a number is read back as another")
	case "string":
		sym.Assert(got.s == want.s, "a text is read back as another")
	case "list":
		n := 0
		for _, c := range want.vals {
			if c.kind == "null" {
				continue
			}
			if n >= len(got.vals) {
				sym.Fail("a list is read back with fewer items")
			}
			same(got.vals[n], c)
			n++
		}
		sym.Assert(n == len(got.vals), "a list is read back with more items")
	case "record", "map":
		n := 0
		for i, k := range want.keys {
			c := got.get(k)
			if c == nil {
				sym.Fail("a field is not written")
			}
			same(c, want.vals[i])
			n++
		}
		for _, k := range got.keys {
			if want.kind == "record" && (k == "AvroWriteTime" || k == "AvroDeleted") {
				n++
			}
		}
		sym.Assert(n == len(got.keys), "a value is written that is in no field")
	}
}

// meta checks the metadata of a record.
func meta(r *val, ms int64, deleted bool) {
	t, d := r.get("AvroWriteTime"), r.get("AvroDeleted")
	if t == nil || d == nil {
		sym.Fail("a record has no metadata")
	}
	sym.Assert(t.i == ms, "a record has another write time than the one given")
	sym.Assert(d.b == deleted, "a record is marked as deleted exactly if it is")
}

func one(b []byte) *val {
	rs := file(b)
	if len(rs) != 1 {
		sym.Fail("an Avro file has another number of records than one")
	}
	return rs[0]
}

// Verif_C39_builds: the generated code compiles.
//
// Bounds: the schemas and options of harness/gen/stage: every kind of property, required or not, null or not, as field, in
// lists, in objects, lists of objects and objects in these, up to four levels; names of methods; renamed fields and
// structs; shared schemas and branches; a directory with what an earlier schema gave; options NoNestedStructs, Pointers, EmbedAllOf.
func Verif_C39_builds() { vFailures() }

// Verif_C39_values: what is written to an Avro file is what is in the struct.
//
// Bounds: the schemas and options as above; every field in turn arbitrary (texts of up to two bytes (thorough: up to 256),
// integers of 64 bits, every number but NaN, times of the years 1 to 9999 in milliseconds, lists and maps of up to two entries, pointers nil or
// not), the others with different fixed values, lists with two items.
// Assumes: snappy and the checksum are inverse to themselves (the check writes and reads them with the same library).
func Verif_C39_values() {
	c, b := choose(true)
	v, want := c.fill(b)
	var buf bytes.Buffer
	if err := v.(avroWriter).WriteAvroCF(&buf, time.Unix(1700000000, 123000000)); err != nil {
		sym.Fail("a proper value is not written")
	}
	got := one(buf.Bytes())
	meta(got, 1700000000123, false)
	same(got, want)
	sym.Reach("read back")
}

// Verif_C39_empty: a value without anything in it, and the write time.
//
// Bounds: the schemas and options as above; all fields empty, or with fixed values; any write time of the years 1 to 9999
// in milliseconds, the zero time (now) included; written as deleted or not.
func Verif_C39_empty() {
	c, b := choose(false)
	b.empty = sym.Choose("empty", 2) == 1
	v, want := c.fill(b)
	deleted := sym.Choose("deleted", 2) == 1
	s := int64(sym.Int("seconds", -62135596800, 253402300799))
	ms := int64(sym.Int("milliseconds", 0, 999))
	at := time.Unix(s, ms*1000000)
	write := v.(avroWriter).WriteAvroCF
	if deleted {
		write = v.(avroWriter).WriteAvroDeletedCF
	}
	before := time.Now().UnixMilli()
	var buf bytes.Buffer
	if err := write(&buf, at); err != nil {
		sym.Fail("a proper value is not written")
	}
	got := one(buf.Bytes())
	if at.IsZero() {
		t := got.get("AvroWriteTime").i
		sym.Assert(t >= before && t <= time.Now().UnixMilli(), "a value written at no time in particular is not written at the current time")
		meta(got, t, deleted)
	} else {
		meta(got, s*1000+ms, deleted)
	}
	same(got, want)
	sym.Reach("read back")
}

// failing is a writer that fails at one of its calls.
type failing struct {
	bytes.Buffer
	at int
}

func (f *failing) Write(b []byte) (int, error) {
	f.at--
	if f.at < 0 {
		return 0, errors.New("disk full")
	}
	return f.Buffer.Write(b)
}

// Verif_C39_fails: errors of the writer are returned, and nil is not written.
//
// Bounds: the schemas and options as above; a writer that fails at any of its calls; the functions that write one value,
// and the bulk writer with two values.
func Verif_C39_fails() {
	c, b := choose(false)
	b.empty = true
	v, _ := c.fill(b)
	var err error
	how := sym.Choose("how", 5)
	at := time.Unix(1700000000, 0)
	write := func(w io.Writer) error {
		switch how {
		case 0:
			return v.(avroWriter).WriteAvroCF(w, at)
		case 1:
			return v.(avroWriter).WriteAvroDeletedCF(w, at)
		case 2:
			return c.bulk(w, at, []written{v, v})
		case 3:
			return c.none.(avroWriter).WriteAvroCF(w, at)
		}
		return c.none.(avroWriter).WriteAvroDeletedCF(w, at)
	}
	if how > 2 {
		var buf bytes.Buffer
		sym.Assert(write(&buf) != nil, "a nil pointer is written without an error")
		sym.Assert(buf.Len() == 0, "something is written for a nil pointer")
		return
	}
	count := &failing{at: 1 << 30}
	if err = write(count); err != nil {
		sym.Fail("a proper value is not written")
	}
	w := &failing{at: sym.Choose("call", 1<<30-count.at)}
	sym.Assert(write(w) != nil, "an error of the writer is not returned")
	sym.Reach("an error")
}

// Verif_C39_bulk: the bulk writer writes every item once, in order; a nil item as deleted.
//
// Bounds: the schemas and options as above; up to three items, each nil, empty or with fixed values.
func Verif_C39_bulk() {
	c, _ := choose(false)
	var vs []written
	var wants []*val
	for n := sym.Choose("items", 4); n > 0; n-- {
		k := sym.Choose("item", 3)
		if k == 2 {
			vs, wants = append(vs, c.none), append(wants, nil)
			if c.nested {
				sym.PanicFinding("nil-item", "nil pointer dereference")
			}
			continue
		}
		v, want := c.fill(&builder{sel: -1, empty: k == 1})
		vs, wants = append(vs, v), append(wants, want)
	}
	var buf bytes.Buffer
	if err := c.bulk(&buf, time.Unix(1700000000, 5000000), vs); err != nil {
		sym.Fail("proper values are not written")
	}
	if len(vs) == 0 {
		sym.Assert(buf.Len() == 0, "something is written although there is nothing to write")
		return
	}
	got := file(buf.Bytes())
	if len(got) != len(vs) {
		sym.Fail("the bulk writer does not write each item once")
	}
	for i, g := range got {
		meta(g, 1700000000005, wants[i] == nil)
		if wants[i] != nil {
			same(g, wants[i])
		}
	}
	sym.Reach("read back")
}
