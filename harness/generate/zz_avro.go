package generate

import (
	"encoding/json"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vAvroField is a field of an Avro record.
type vAvroField struct {
	Name        string
	Namespace   string
	Doc         string
	Type        json.RawMessage
	Default     json.RawMessage
	LogicalType string
}

// vAvroRecord is an Avro record.
type vAvroRecord struct {
	Name      string
	Namespace string
	Type      string
	Fields    []vAvroField
}

func vAvroParse(text string) *vAvroRecord {
	var r vAvroRecord
	if err := json.Unmarshal([]byte(text), &r); err != nil {
		sym.Observe("schema", text)
		sym.Fail("the Avro schema is not JSON, or not that of a record")
	}
	sym.Assert(r.Type == "record", "the Avro schema of an object is not a record")
	return &r
}

// vAvroCompact removes the white space outside of strings.
func vAvroCompact(s string) string {
	var b []byte
	in := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case in && c == '\\':
			b = append(b, c)
			i++
			c = s[i]
		case c == '"':
			in = !in
		case !in && (c == ' ' || c == '\n' || c == '\t'):
			continue
		}
		b = append(b, c)
	}
	return string(b)
}

const vMillisType = `{"type":"long","logicalType":"timestamp-millis"}`

// vAvroScalar is the Avro type of a property that is no object or array.
func vAvroScalar(kind string) string {
	switch kind {
	case "boolean":
		return `"boolean"`
	case "number":
		return `"double"`
	case "integer":
		return `"long"`
	case "string":
		return `"string"`
	case "date":
		return vMillisType
	case "map":
		return `{"type":"map","values":"string"}`
	}
	panic("harness kind " + kind)
}

// vAvroCheck checks the fields of a record against the properties of its object. parent: the embedded struct the fields
// come from and the names of the objects around them.
func vAvroCheck(fs []vAvroField, ps []*vProp, o *vOpts, path []string) {
	n := 0
	for _, p := range ps {
		if p.kind == "hydration" {
			continue
		}
		n++
		var f *vAvroField
		for i := range fs {
			if fs[i].Name == p.name {
				sym.Assert(f == nil, "an Avro record has two fields of one name")
				f = &fs[i]
			}
		}
		if f == nil {
			sym.Fail("a property has no field in the Avro schema")
		}
		vAvroFieldCheck(f, p, o, path)
	}
	sym.Assert(len(fs) == n, "an Avro record has another field than those of its properties")
}

func vAvroFieldCheck(f *vAvroField, p *vProp, o *vOpts, path []string) {
	sym.Assert(f.Namespace == strings.Join(path, "."), "a field has another namespace than that of its record")
	doc := ""
	if o.tag {
		doc = strings.Split(p.desc, "\n")[0]
	}
	sym.Assert(f.Doc == doc, "the description of a property does not reach the Avro schema")
	typ := string(f.Type)
	// what may be missing or null is a union with null; booleans are false instead; arrays and maps are empty instead, and
	// so are objects that are no pointers
	nullable := !p.req || p.null > 0
	switch p.kind {
	case "boolean":
		sym.Assert(typ == `"boolean"`, "a boolean has another Avro type")
		want := ""
		if nullable {
			want = "false"
		}
		sym.Assert(string(f.Default) == want, "an optional boolean has no default, or a required one has one")
		return
	case "map":
		sym.Assert(vAvroCompact(typ) == vAvroScalar("map"), "an object without properties is no Avro map")
	case "array":
		var a struct {
			Type  string
			Items json.RawMessage
		}
		if err := json.Unmarshal([]byte(typ), &a); err != nil || a.Type != "array" {
			sym.Fail("an array has another Avro type")
		}
		items := vAvroCompact(string(a.Items))
		switch p.items.kind {
		case "object":
			vAvroObject(items, p.items, o, append(append([]string(nil), path...), p.name))
		case "map":
			sym.Assert(items == vAvroScalar("map"), "the items of an array have another Avro type")
		default:
			if w := vAvroScalar(p.items.kind); w[0] == '"' {
				sym.Assert(items == w || items == `{"type":`+w+`}`, "the items of an array have another Avro type")
			} else {
				sym.Assert(items == w, "the items of an array have another Avro type")
			}
		}
	case "object":
		if p.null > 0 || o.flat && o.pointers && !p.req {
			pre, post := `["null",`, `]`
			typ = vAvroCompact(typ)
			if !strings.HasPrefix(typ, pre) || !strings.HasSuffix(typ, post) {
				sym.Fail("an object that may be null has no union with null")
			}
			typ = typ[len(pre) : len(typ)-len(post)]
		}
		vAvroObject(typ, p, o, append(append([]string(nil), path...), p.name))
	default:
		want := vAvroScalar(p.kind)
		if nullable {
			want = `["null",` + want + `]`
		}
		sym.Assert(vAvroCompact(typ) == want, "a property has another Avro type than its own, or is nullable without being optional or the reverse")
	}
	sym.Assert(f.Default == nil, "a property has a default that it should not have")
}

// vAvroObject checks the record of a nested object.
func vAvroObject(typ string, p *vProp, o *vOpts, path []string) {
	r := vAvroParse(typ)
	sym.Assert(r.Name == path[len(path)-1]+"_record", "the record of a nested object has another name")
	sym.Assert(r.Namespace == strings.Join(path, "."), "the record of a nested object has another namespace")
	vAvroCheck(r.Fields, p.props, o, path)
}

// vAvroRoot checks the metadata fields of a record and returns its other fields.
func vAvroRoot(text, typeName string) []vAvroField {
	r := vAvroParse(text)
	sym.Assert(r.Name == typeName && r.Namespace == "", "the Avro schema is not named after the struct")
	if len(r.Fields) < 2 {
		sym.Fail("the Avro schema has no metadata fields")
	}
	w, d := r.Fields[0], r.Fields[1]
	sym.Assert(w.Name == "AvroWriteTime" && string(w.Type) == `"long"` && w.LogicalType == "timestamp-millis", "the Avro schema does not begin with AvroWriteTime")
	sym.Assert(d.Name == "AvroDeleted" && string(d.Type) == `"boolean"` && string(d.Default) == "false", "AvroDeleted is missing from the Avro schema")
	return r.Fields[2:]
}

// vBuildAvro generates the Go struct of an object with the properties and its Avro schema, and checks the latter.
func vBuildAvro(ps []*vProp, o *vOpts, pretty bool) {
	d := vDir()
	vWrite(d+"/thing.json", vObject(ps))
	err := BuildStructsWithArgs(BuildArgs{SchemaPath: d + "/thing.json", OutputDir: d + "/pkg",
		Pointers: o.pointers, NoNestedStructs: o.flat, DescriptionAsStructTag: o.tag, FieldNameMap: o.rename})
	if err != nil {
		sym.Fail("no struct is generated for a proper schema")
	}
	path, err := buildAvroSchemaFile("Thing", d+"/pkg/thing.go", pretty)
	if err != nil {
		sym.Observe("error", err.Error())
		sym.Fail("no Avro schema is generated for a proper struct")
	}
	sym.Assert(path == d+"/pkg/thing.avsc", "the Avro schema has another file name")
	vAvroCheck(vAvroRoot(vRead(path), "Thing"), ps, o, nil)
}
