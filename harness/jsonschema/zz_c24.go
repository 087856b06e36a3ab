package jsonschema

import (
	"encoding/json"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

var vTypeNames = []string{"string", "object", "array", "boolean", "integer", "number", "date-time"}

// vDecor puts a type definition into an instance, with other members around it.
func vDecor(def string) string {
	switch sym.Choose("decor", 5) {
	case 0:
		return `{` + def + `}`
	case 1:
		return `{"description":"d",` + def + `,"format":"f"}`
	case 2:
		return ` { "properties" : { "type" : { "type" : "number" } } , ` + def + ` } `
	case 3:
		return `{"items":{"type":["boolean","null"]},"default":{"type":"x"},` + def + "\n}"
	}
	return `{` + def + `,"allOf":[{"type":"string"},{"type":["null"]}],"definitions":{"type":"array"}}`
}

// vInstance decodes an instance and checks that its type is the given list and that the rest is what it is without a type.
func vInstance(text, without string, types []string) {
	var i, w Instance
	data := []byte(text)
	err := json.Unmarshal(data, &i)
	sym.Assert(err == nil, "an instance is decoded")
	sym.Assert(string(data) == text, "decoding leaves the definition as it was")
	sym.Assert(vStrings(i.Type, types), "the type of an instance is the list of its names")
	if err := json.Unmarshal([]byte(without), &w); err != nil {
		panic("harness instance " + without)
	}
	i.Type = w.Type
	sym.Assert(i.Description == w.Description && i.Format == w.Format && string(i.Items) == string(w.Items) && string(i.Definitions) == string(w.Definitions) &&
		len(i.Properties) == len(w.Properties) && string(i.Properties["type"]) == string(w.Properties["type"]) && len(i.AllOf) == len(w.AllOf), "the notation of the type changes nothing else")
	for k := range i.AllOf {
		sym.Assert(vStrings(i.AllOf[k].Type, w.AllOf[k].Type), "the notation of the type changes nothing else")
	}
}

// Verif_C24_name checks types given as a name.
// Bounds: every name of one to eight bytes of letters, digits, space and most punctuation, at five places of an instance, in three
// spellings of white space.
func Verif_C24_name() {
	name := sym.StrN("name", 1+sym.Choose("len", 8), '#', '[')
	colon := []string{`:`, ` : `, ":\n\t"}[sym.Choose("colon", 3)]
	def := `"type"` + colon + `"` + name + `"`
	text := vDecor(def)
	typ, null, err := FieldType([]byte(text))
	sym.Assert(err == nil, "a name is a type")
	sym.Assert(typ == name, "the type is the name")
	sym.Assert(!null, "a name alone is not nullable")
	vInstance(text, strings.Replace(text, def, `"x":0`, 1), []string{name})
	sym.Reach("end")
}

// Verif_C24_list checks types given as a list.
// Bounds: lists of up to three names (thorough: four), each "null" or a name of four symbolic letters (which may be "null" too), in two
// spellings of white space, at five places of an instance.
func Verif_C24_list() {
	n := sym.Choose("n", 4+sym.Tier())
	var names, quoted []string
	for i := 0; i < n; i++ {
		name := "null"
		if sym.Choose("null", 2) == 0 {
			name = sym.StrN("name", 4, 'a', 'z')
		}
		names = append(names, name)
		quoted = append(quoted, `"`+name+`"`)
	}
	def := `"type":[` + strings.Join(quoted, []string{`,`, " , \n"}[sym.Choose("comma", 2)]) + `]`
	text := vDecor(def)
	typ, null, err := FieldType([]byte(text))
	want, wantNull, count := "", false, 0
	for _, name := range names {
		if name == "null" {
			wantNull = true
			continue
		}
		want = name
		count++
	}
	vInstance(text, strings.Replace(text, def, `"x":0`, 1), names)
	if count > 1 {
		sym.Assert(err != nil, "a list of several types is an error")
		sym.Reach("union")
		return
	}
	sym.Assert(err == nil, "a list of one type and null is a type")
	sym.Assert(typ == want, "the type is the name that is not null")
	sym.Assert(null == wantNull, "null marks the field nullable wherever it stands")
	sym.Reach("end")
}

// Verif_C24_bad checks types that are missing or no type.
// Bounds: an instance without a type, or with one of eight values that are neither a name nor a list, at five places of an instance; a
// truncated instance.
func Verif_C24_bad() {
	bad := []string{`"typ":"string"`, `"Type":"string"`, `"type":1`, `"type":null`, `"type":true`, `"type":{"type":"string"}`, `"type":-1.5e3`, `"type":{}`}
	text := vDecor(bad[sym.Choose("bad", len(bad))])
	_, null, err := FieldType([]byte(text))
	sym.Assert(err != nil, "an instance without a type is an error")
	sym.Assert(!null, "an error is not nullable")
	sym.Reach("end")
}

// Verif_C24_any checks that no definition makes it panic.
// Bounds: every text of up to three (thorough: four) bytes after one of eight beginnings of an instance.
func Verif_C24_any() {
	prefix := []string{``, `{`, `{"type`, `{"type":`, `{"type":"`, `{"type":[`, `{"type":["null`, `{"type":["a",`}[sym.Choose("prefix", 8)]
	text := prefix + sym.StrIn("tail", 3+sym.Tier(), 0, 0xff)
	typ, null, err := FieldType([]byte(text))
	sym.Assert(err == nil || typ == "" && !null, "an error comes without a type")
	sym.Reach("end")
}
