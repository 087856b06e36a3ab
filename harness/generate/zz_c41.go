package generate

import (
	"os"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vFaultSchema writes the schema files of the shape and returns the path of the root schema.
func vFaultSchema(d string, shape int) string {
	switch shape {
	case 0: // one object
		vWrite(d+"/thing.json", `{"type":"object","description":"A thing","properties":{
			"a":{"type":"string","description":"DEPRECATED: no\nlonger\n  used"},
			"b":{"type":"array","items":{"type":"object","properties":{"c":{"type":"integer","description":"it"},"t":{"type":"string","format":"date-time"}}}},
			"d":{"type":"object","properties":{"e":{"type":["boolean","null"]}}},
			"f":{"type":"graphql-hydration","target":"Other","graphql-arguments":["id: Int!"]},
			"g":{"type":"object","properties":{}}},"required":["b"]}`)
	case 1: // shared schemas and branches
		vWrite(d+"/thing.json", `{"type":"object","allOf":[{"$ref":"base.json"}],"oneOf":[{"$ref":"one.json"},{"$ref":"thingtwo.json"}]}`)
		vWrite(d+"/base.json", `{"type":"object","properties":{"a":{"type":"string","description":"first\nsecond"},"k":{"type":"object","properties":{"l":{"type":"number"}}}}}`)
		vWrite(d+"/one.json", `{"type":"object","properties":{"b":{"type":"array","items":{"type":"string"}}}}`)
		vWrite(d+"/thingtwo.json", `{"type":"object","properties":{"c":{"type":"number"},"n":{"type":"object","properties":{"o":{"type":"string"}}}}}`)
	default: // a shared schema only
		vWrite(d+"/thing.json", `{"type":"object","allOf":[{"$ref":"base.json"}]}`)
		vWrite(d+"/base.json", `{"type":"object","properties":{"a":{"type":"string"}}}`)
	}
	return d + "/thing.json"
}

// vFaultArgs are the options of the generation.
func vFaultArgs(d string, shape int) BuildArgs {
	args := BuildArgs{SchemaPath: vFaultSchema(d, shape), OutputDir: d + "/pkg", ImportPath: "imp/pkg"}
	args.GenerateGraphQL = sym.Choose("GenerateGraphQL", 2) == 1
	args.NoNestedStructs = args.GenerateGraphQL
	args.DescriptionAsStructTag = sym.Choose("DescriptionAsStructTag", 2) == 1
	if args.GenerateGraphQL {
		args.ScalarAny = sym.Choose("ScalarAny", 2) == 1
		args.InterfaceFiles = shape == 1 && sym.Choose("InterfaceFiles", 2) == 1
		if sym.Choose("OutputDirGraphQL", 2) == 1 {
			args.OutputDirGraphQL = d + "/gql"
			if err := os.Mkdir(d+"/gql", 0o755); err != nil {
				panic("harness directory: " + err.Error())
			}
		}
	}
	return args
}

// vTexts are the names of the generated files and their texts.
func vTexts(args BuildArgs) (names []string, texts map[string]string) {
	texts = map[string]string{}
	for _, dir := range []string{args.OutputDir, args.OutputDirGraphQL} {
		if dir == "" {
			continue
		}
		for _, f := range strings.Split(vFiles(dir), " ") {
			if f != "" {
				names = append(names, dir+"/"+f)
				texts[dir+"/"+f] = vRead(dir + "/" + f)
			}
		}
	}
	return names, texts
}

// Verif_C41_full: a disk that is full after any number of bytes of a file.
//
// Bounds: a schema of one object with every kind of property, one with a shared schema and two branches, or one with a
// shared schema only; Go structs alone or with GraphQL, options DescriptionAsStructTag, ScalarAny, InterfaceFiles,
// OutputDirGraphQL; every number of bytes from 0 to beyond the longest generated file after which writing fails, the
// same for all files; the output directory empty, with the files of an earlier run, or with longer files of the same names.
// Assumes: a write that does not fit fails as a whole or in part with an error, closing a file does not fail.
func Verif_C41_full() {
	d := vDir()
	args := vFaultArgs(d, sym.Choose("schema", 3))
	if err := BuildStructsWithArgs(args); err != nil {
		sym.Fail("nothing is generated for a proper schema")
	}
	names, texts := vTexts(args)
	earlier := sym.Choose("earlier files", 3)
	longest := 0
	for _, n := range names {
		if len(texts[n]) > longest {
			longest = len(texts[n])
		}
	}
	for _, n := range names {
		switch earlier {
		case 0:
			if err := os.Remove(n); err != nil {
				panic("harness file: " + err.Error())
			}
		case 2:
			if err := os.WriteFile(n, []byte(texts[n]+"// more\n"), 0o644); err != nil {
				panic("harness file: " + err.Error())
			}
		}
	}
	room := sym.Int("room", 0, longest+1)
	sym.FileLimit(room)
	err := BuildStructsWithArgs(args)
	sym.FileLimit(-1)
	if room >= longest {
		sym.Assert(err == nil, "generation fails although every file has room")
	}
	if err != nil {
		sym.Reach("full disk reported")
		return
	}
	for _, n := range names {
		b, rerr := os.ReadFile(n)
		sym.Assert(rerr == nil && string(b) == texts[n], "generation reports success but a file is missing or cut off")
	}
	sym.Reach("everything written")
}

// Verif_C41_obstacle: a file that cannot be created because a directory has its name, or its directory is missing.
//
// Bounds: the schemas and options of Verif_C41_full; any one of the generated files, or the output directory for Go or
// for GraphQL.
func Verif_C41_obstacle() {
	d := vDir()
	args := vFaultArgs(d, sym.Choose("schema", 3))
	if err := BuildStructsWithArgs(args); err != nil {
		sym.Fail("nothing is generated for a proper schema")
	}
	names, _ := vTexts(args)
	for _, n := range names {
		if err := os.Remove(n); err != nil {
			panic("harness file: " + err.Error())
		}
	}
	switch k := sym.Choose("obstacle", len(names)+2); k {
	case len(names):
		args.OutputDir = d + "/missing/pkg"
	case len(names) + 1:
		if !args.GenerateGraphQL {
			sym.Skip()
		}
		args.OutputDirGraphQL = d + "/missing/gql"
	default:
		if err := os.Mkdir(names[k], 0o755); err != nil {
			panic("harness directory: " + err.Error())
		}
	}
	sym.Assert(BuildStructsWithArgs(args) != nil, "generation reports success although a file could not be created")
	sym.Reach("obstacle reported")
}
