package generate

import "github.com/GannettDigital/jstransform/zzverif/sym"

// Verif_C33_leaf: one property of any kind.
//
// Bounds: a property name of two characters (a letter, then a letter, digit or underscore); every leaf kind, directly or
// as the items of an array; null absent, first or last; required or not; every combination of the options Pointers and
// NoNestedStructs.
func Verif_C33_leaf() {
	p := &vProp{name: vName("name", 1), kind: vLeaves[sym.Choose("kind", len(vLeaves))], null: sym.Choose("null", 3), req: sym.Choose("req", 2) == 1}
	if sym.Choose("array", 2) == 1 {
		p = &vProp{name: p.name, kind: "array", items: p, req: p.req}
	}
	vBuildAvro([]*vProp{p}, vChooseOpts(), false)
	sym.Reach("a schema")
}

// Verif_C33_nested: objects and arrays of objects in each other.
//
// Bounds: a property of three levels (objects, arrays of objects, arrays of numbers or times; in the innermost level a
// string, a time or an object without properties), each level with a property of the same name as its parent and maybe an
// integer beside it; null in objects; required or not on every level; the options Pointers and NoNestedStructs; compact or
// pretty.
func Verif_C33_nested() {
	c := sym.Choose("options", 8)
	vBuildAvro([]*vProp{vTree("a", 2)}, &vOpts{pointers: c&1 != 0, flat: c&2 != 0}, c&4 != 0)
	sym.Reach("a schema")
}

// Verif_C33_embedded: the fields of embedded structs are fields of the record, each once; a field of the struct itself
// replaces one of an embedded struct.
//
// Bounds: a struct that embeds a struct that embeds a struct, or a struct that embeds two; each with two properties, the
// names of which any of a, b, c, d; the names of the two embedded structs beside each other differ; any of the embedded
// structs renamed or not.
func Verif_C33_embedded() {
	names := []string{"a", "b", "c", "d"}
	kinds := []string{"string", "integer", "boolean"}
	d := vDir()
	files := []string{"thing", "base", "low"}
	deep := sym.Choose("deep", 2) == 1
	var own [3][]*vProp
	for i := range files {
		x := sym.Choose("first", len(names)-1)
		y := x + 1 + sym.Choose("second", len(names)-1-x)
		own[i] = []*vProp{{name: names[x], kind: kinds[i], req: true}, {name: names[y], kind: kinds[i], req: true}}
	}
	rename := map[string]string{}
	if r := sym.Choose("rename", 3); r > 0 {
		rename[files[r]] = "Other"
	}
	refs := [3]string{}
	if deep {
		refs[0] = `,"allOf":[{"$ref":"base.json"}]`
		refs[1] = `,"allOf":[{"$ref":"low.json"}]`
	} else {
		for _, p := range own[1] {
			for _, q := range own[2] {
				if p.name == q.name {
					sym.Skip()
				}
			}
		}
		refs[0] = `,"allOf":[{"$ref":"base.json"},{"$ref":"low.json"}]`
	}
	for i, f := range files {
		vWrite(d+"/"+f+".json", `{"type":"object",`+vProps(own[i])+refs[i]+`}`)
	}
	for i := len(files) - 1; i >= 0; i-- {
		if err := BuildStructsWithArgs(BuildArgs{SchemaPath: d + "/" + files[i] + ".json", OutputDir: d + "/pkg", EmbedAllOf: true, StructNameMap: rename}); err != nil {
			sym.Fail("no struct is generated for a proper schema")
		}
	}
	path, err := buildAvroSchemaFile("Thing", d+"/pkg/thing.go", false)
	if err != nil {
		sym.Fail("no Avro schema is generated for a proper struct")
	}
	fs := vAvroRoot(vRead(path), "Thing")
	var want []*vProp
	for i := range own {
		for _, p := range own[i] {
			old := false
			for _, w := range want {
				old = old || w.name == p.name
			}
			if !old {
				want = append(want, p)
			}
		}
	}
	sym.Assert(len(fs) == len(want), "an Avro record has another number of fields than its struct and the embedded ones together")
	for _, p := range want {
		n := 0
		for _, f := range fs {
			if f.Name == p.name {
				n++
				sym.Assert(string(f.Type) == vAvroScalar(p.kind), "a field of an embedded struct replaces one of the struct itself")
			}
		}
		sym.Assert(n == 1, "a field of a struct or an embedded one is missing from the Avro record, or is there twice")
	}
	sym.Reach("a schema")
}

// Verif_C33_embedobjects: objects in embedded structs keep all their fields, whatever the fields of the structs around them.
//
// Bounds: a struct that embeds a struct that may embed another; each has one property named a, b or n of its own, and the
// innermost an object or array of objects n of two properties named a, b or n, one of which may be an object with a property a;
// required or not; the options Pointers and NoNestedStructs.
func Verif_C33_embedobjects() {
	d := vDir()
	c := sym.Choose("options", 4)
	o := &vOpts{pointers: c&1 != 0, flat: c&2 != 0}
	names := []string{"a", "b", "n"}
	own := func(i int) *vProp {
		return &vProp{name: names[sym.Choose("own", 3)], kind: []string{"string", "integer", "number"}[i], req: true}
	}
	x := sym.Choose("inner", 2)
	inner := []*vProp{{name: names[x], kind: "boolean", req: true}, {name: names[x+1+sym.Choose("more", 2-x)], kind: "date"}}
	if sym.Choose("deeper", 2) == 1 {
		inner[1] = &vProp{name: inner[1].name, kind: "object", req: true, props: []*vProp{{name: "a", kind: "string"}}}
	}
	obj := &vProp{name: "n", kind: "object", req: sym.Choose("req", 2) == 1, props: inner}
	if sym.Choose("array", 2) == 1 {
		obj = &vProp{name: "n", kind: "array", req: obj.req, items: &vProp{kind: "object", props: inner}}
	}
	files, types := []string{"thing", "base"}, []string{"Thing", "Base"}
	if sym.Choose("deep", 2) == 1 {
		files, types = append(files, "low"), append(types, "Low")
	}
	args := BuildArgs{OutputDir: d + "/pkg", EmbedAllOf: true, Pointers: o.pointers, NoNestedStructs: o.flat}
	var want []*vProp
	var paths [][]string
	var ps [3][]*vProp
	for i := range files {
		ps[i] = []*vProp{own(i)}
		if i == len(files)-1 {
			if ps[i][0].name == "n" {
				ps[i] = nil
			}
			ps[i] = append(ps[i], obj)
		}
		for _, p := range ps[i] {
			old := false
			for _, w := range want {
				old = old || w.name == p.name
			}
			if !old {
				want = append(want, p)
				paths = append(paths, types[1:i+1])
			}
		}
	}
	for i := len(files) - 1; i >= 0; i-- {
		ref := ""
		if i+1 < len(files) {
			ref = `,"allOf":[{"$ref":"` + files[i+1] + `.json"}]`
		}
		vWrite(d+"/"+files[i]+".json", `{"type":"object",`+vProps(ps[i])+ref+`}`)
		args.SchemaPath = d + "/" + files[i] + ".json"
		if err := BuildStructsWithArgs(args); err != nil {
			sym.Fail("no struct is generated for a proper schema")
		}
	}
	path, err := buildAvroSchemaFile("Thing", d+"/pkg/thing.go", false)
	if err != nil {
		sym.Fail("no Avro schema is generated for a proper struct")
	}
	fs := vAvroRoot(vRead(path), "Thing")
	sym.Assert(len(fs) == len(want), "an Avro record has another number of fields than its struct and the embedded ones together")
	for i, p := range want {
		n := 0
		for j := range fs {
			if fs[j].Name == p.name {
				n++
				vAvroFieldCheck(&fs[j], p, o, paths[i])
			}
		}
		sym.Assert(n == 1, "a field of a struct or an embedded one is missing from the Avro record, or is there twice")
	}
	sym.Reach("a schema")
}

// Verif_C33_empty: a struct without fields has an Avro schema, and others have those of the ones they embed.
//
// Bounds: a struct with a property or none, or one with a property that embeds one or two structs with a property or none each.
func Verif_C33_empty() {
	d := vDir()
	var want []*vProp
	n := sym.Choose("embedded", 3)
	part := func(name string) string {
		if (name != "thing" || n == 0) && sym.Choose("properties of "+name, 2) == 0 {
			return `{"type":"object","properties":{}`
		}
		p := &vProp{name: name, kind: "integer", req: true}
		want = append(want, p)
		return `{"type":"object",` + vProps([]*vProp{p})
	}
	text := part("thing") // with a property if it embeds others, otherwise only these are generated
	refs := ""
	for _, f := range []string{"base", "low"}[:n] {
		vWrite(d+"/"+f+".json", part(f)+"}")
		if refs != "" {
			refs += ","
		}
		refs += `{"$ref":"` + f + `.json"}`
		if err := BuildStructsWithArgs(BuildArgs{SchemaPath: d + "/" + f + ".json", OutputDir: d + "/pkg"}); err != nil {
			sym.Fail("no struct is generated for a proper schema")
		}
	}
	if refs != "" {
		text += `,"allOf":[` + refs + `]`
	}
	vWrite(d+"/thing.json", text+"}")
	if err := BuildStructsWithArgs(BuildArgs{SchemaPath: d + "/thing.json", OutputDir: d + "/pkg", EmbedAllOf: true}); err != nil {
		sym.Fail("no struct is generated for a proper schema")
	}
	path, err := buildAvroSchemaFile("Thing", d+"/pkg/thing.go", false)
	if err != nil {
		sym.Fail("no Avro schema is generated for a proper struct")
	}
	fs := vAvroRoot(vRead(path), "Thing")
	sym.Assert(len(fs) == len(want), "an Avro record has not exactly the fields of the struct")
	for _, p := range want {
		found := false
		for _, f := range fs {
			found = found || f.Name == p.name
		}
		sym.Assert(found, "a property has no field in the Avro schema")
	}
	sym.Reach("a schema")
}

// Verif_C33_deep: objects in objects up to five levels deep.
//
// Bounds: a chain of four objects, objects that may be null, or arrays of objects, each with an optional integer beside the
// next one, the innermost with a text, time or flag that is required or not; the options Pointers and NoNestedStructs.
func Verif_C33_deep() {
	c := sym.Choose("options", 4)
	kinds := []string{"string", "date", "boolean"}
	p := &vProp{name: "s", kind: kinds[sym.Choose("kind", len(kinds))], req: sym.Choose("req", 2) == 1}
	for i := 0; i < 4; i++ {
		obj := &vProp{name: "a", kind: "object", req: true, props: []*vProp{{name: "n", kind: "integer"}, p}}
		p = obj
		switch sym.Choose("level", 3) {
		case 1:
			obj.null = 1
		case 2:
			p = &vProp{name: "a", kind: "array", items: obj}
			obj.name = ""
		}
	}
	vBuildAvro([]*vProp{p}, &vOpts{pointers: c&1 != 0, flat: c&2 != 0}, false)
	sym.Reach("a chain")
}
