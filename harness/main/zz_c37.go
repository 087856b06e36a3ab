package main

import (
	"flag"
	"io"
	"os"
	"strings"

	"github.com/GannettDigital/jstransform/generate"
	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vExit is what a call of os.Exit becomes: the calls in the command are replaced by zzExit before it is checked.
type vExit int

func zzExit(code int) { panic(vExit(code)) }

// vMain runs the command. It returns the code it exits with.
func vMain(args ...string) (code int) {
	os.Args = append([]string{"jstransform"}, args...)
	flag.CommandLine = flag.NewFlagSet("jstransform", flag.ContinueOnError)
	flag.CommandLine.SetOutput(io.Discard)
	flag.CommandLine.Init("jstransform", flag.PanicOnError)
	out := os.Stdout
	defer func() {
		os.Stdout = out
		switch x := recover().(type) {
		case nil:
		case vExit:
			code = int(x)
		case error: // of the flags
			code = 2
		default:
			panic(x)
		}
	}()
	main()
	return 0
}

func vWrite(d, name, text string) {
	if err := os.WriteFile(d+"/"+name, []byte(text), 0o644); err != nil {
		sym.Fail("harness: " + err.Error())
	}
}

// vSchemas writes a schema that every option makes a difference for.
func vSchemas() string {
	d := sym.TempDir()
	for _, s := range []string{"/in", "/1", "/2", "/1/pkg", "/2/pkg", "/1/gql", "/2/gql"} {
		if err := os.MkdirAll(d+s, 0o755); err != nil {
			sym.Fail("harness: " + err.Error())
		}
	}
	vWrite(d+"/in", "asset.json", `{"type":"object","allOf":[{"$ref":"base.json"}],"oneOf":[{"$ref":"thing.json"}]}`)
	vWrite(d+"/in", "base.json", `{"type":"object","properties":{"a":{"type":"string","description":"text of a"}}}`)
	vWrite(d+"/in", "mid.json", `{"type":"object","properties":{"m":{"type":"integer"}}}`)
	vWrite(d+"/in", "thing.json", `{"type":"object","allOf":[{"$ref":"mid.json"}],"properties":{"b":{"type":"string","format":"date-time"},"c":{"type":"object","properties":{"d":{"type":"number"}}}}}`)
	vWrite(d+"/in", "plain.json", `{"type":"object","properties":{"b":{"type":"string","format":"date-time"},"c":{"type":"object","properties":{"d":{"type":"number"}}}}}`)
	return d
}

// vTree are the files below a directory with their contents.
func vTree(d string) string {
	es, err := os.ReadDir(d)
	if err != nil {
		return "no directory"
	}
	s := ""
	for _, e := range es {
		if e.IsDir() {
			s += e.Name() + "{" + vTree(d+"/"+e.Name()) + "}"
			continue
		}
		b, err := os.ReadFile(d + "/" + e.Name())
		if err != nil {
			sym.Fail("harness: " + err.Error())
		}
		s += e.Name() + "[" + string(b) + "]"
	}
	return s
}

// vCompare runs the generator as asked for and the command with the arguments and compares what they write.
func vCompare(d string, flags []string, args generate.BuildArgs, schema string, where int) {
	args.SchemaPath = d + "/in/" + schema
	args.OutputDir = d + "/1/pkg"
	if args.OutputDirGraphQL != "" {
		args.OutputDirGraphQL = d + "/1/gql"
	}
	in := vTree(d + "/in")
	err := generate.BuildStructsWithArgs(args)
	if err != nil && !args.GenerateAvro {
		sym.Fail("harness: " + err.Error())
	}
	defer os.Chdir("/")
	switch where {
	case 0:
		flags = append(flags, d+"/in/"+schema, d+"/2/pkg")
	case 1:
		if os.Chdir(d+"/2/pkg") != nil {
			sym.Fail("harness: no directory")
		}
		flags = append(flags, "../../in/"+schema)
	case 2:
		if os.Chdir(d+"/in") != nil {
			sym.Fail("harness: no directory")
		}
		flags = append(flags, schema, "../2/pkg")
	}
	code := vMain(flags...)
	sym.Assert((code != 0) == (err != nil), "the command fails exactly if the generator does")
	one, two := vTree(d+"/1"), vTree(d+"/2")
	sym.Assert(one == two, "the command generates something else than its options ask for")
	sym.Assert(vTree(d+"/in") == in, "the command writes files beside the schema")
	if err == nil && args.GenerateGraphQL {
		dir := "pkg"
		if args.OutputDirGraphQL != "" {
			dir = "gql"
		}
		_, gerr := os.Stat(d + "/2/" + dir + "/" + strings.Split(schema, ".")[0] + ".graphqls")
		sym.Assert(gerr == nil, "the GraphQL file is not where it was asked for")
	}
}

// vBool is a flag.
type vBool struct {
	name string
	set  func(a *generate.BuildArgs, v bool)
}

var vBools = []vBool{
	{"interfaceFiles", func(a *generate.BuildArgs, v bool) { a.InterfaceFiles = v }},
	{"nestedStructs", func(a *generate.BuildArgs, v bool) { a.NoNestedStructs = !v }},
	{"pointers", func(a *generate.BuildArgs, v bool) { a.Pointers = v }},
	{"descriptionAsStructTag", func(a *generate.BuildArgs, v bool) { a.DescriptionAsStructTag = v }},
	{"embedAllOf", func(a *generate.BuildArgs, v bool) { a.EmbedAllOf = v }},
	{"scalarAny", func(a *generate.BuildArgs, v bool) { a.ScalarAny = v }},
}

func vDefaults() generate.BuildArgs {
	return generate.BuildArgs{DescriptionAsStructTag: true, EmbedAllOf: true}
}

// vFlag chooses one of the flags, from the given one on, and how it is written.
func vFlag(from int, a *generate.BuildArgs) ([]string, int) {
	k := from + sym.Choose("flag", len(vBools)-from+1)
	if k == len(vBools) {
		return nil, k
	}
	f := vBools[k]
	forms := []string{"-" + f.name, "--" + f.name, "-" + f.name + "=true", "-" + f.name + "=false"}
	form := sym.Choose("form", len(forms))
	f.set(a, form < 3)
	return []string{forms[form]}, k + 1
}

// Verif_C37_flags: the command generates what its flags ask for.
//
// Bounds: a schema with a shared schema and a branch that shares another one, and a schema of its own; every two of the flags interfaceFiles, nestedStructs, pointers, descriptionAsStructTag, embedAllOf, scalarAny, written in
// any of four ways, one or none; with GraphQL or without, in a directory of its own or not; the output directory given or the
// current one, paths absolute or relative.
func Verif_C37_flags() {
	d := vSchemas()
	a := vDefaults()
	flags, k := vFlag(0, &a)
	more, _ := vFlag(k, &a)
	flags = append(flags, more...)
	if sym.Choose("graphql", 2) == 1 {
		a.GenerateGraphQL, a.ImportPath = true, "imp/pkg"
		flags = append(flags, "-graphql", "-importPath", "imp/pkg")
		if sym.Choose("directory", 2) == 1 {
			a.OutputDirGraphQL = "x"
			flags = append(flags, "-outputPathGraphQL="+d+"/2/gql")
		}
	}
	vCompare(d, flags, a, []string{"asset.json", "plain.json"}[sym.Choose("schema", 2)], sym.Choose("where", 3))
	sym.Reach("the same files")
}

// Verif_C37_rename: the flags that rename.
//
// Bounds: the schemas as above; each of rename, renameFields and renameGraphQLType given once, twice or with two pairs, or not
// at all; new names of a capital letter and a small one.
func Verif_C37_rename() {
	d := vSchemas()
	a := vDefaults()
	a.GenerateGraphQL, a.ImportPath = true, "imp/pkg"
	flags := []string{"-graphql", "-importPath=imp/pkg"}
	which := sym.Choose("which", 3)
	keys := [][]string{{"base", "thing"}, {"a", "d"}, {"pkg", "thing"}}[which]
	m := map[string]string{}
	name := []string{"rename", "renameFields", "renameGraphQLType"}[which]
	one, two := sym.StrN("new", 1, 'A', 'Z')+"x", sym.StrN("other", 1, 'A', 'Z')+"y"
	switch sym.Choose("how", 3) {
	case 0:
		flags = append(flags, "-"+name, keys[0]+"="+one)
		m[keys[0]] = one
	case 1:
		flags = append(flags, "-"+name, keys[0]+"="+one, "-"+name+"="+keys[1]+"="+two)
		m[keys[0]], m[keys[1]] = one, two
	case 2:
		flags = append(flags, "-"+name, keys[0]+"="+one+","+keys[1]+"="+two)
		m[keys[0]], m[keys[1]] = one, two
	}
	switch which {
	case 0:
		a.StructNameMap = m
	case 1:
		a.FieldNameMap = m
	case 2:
		a.GraphQLTypeNameMap = m
	}
	vCompare(d, flags, a, "asset.json", 0)
	sym.Reach("the same files")
}

// Verif_C37_codecs: the flags msgp and avro.
//
// Bounds: the schemas as above; msgp, avro or both.
// Assumes: golang.org/x/tools/imports.Process formats Go code and nothing else; the templates of gogen-avro are not evaluated,
// so with Avro what is generated before them is compared.
func Verif_C37_codecs() {
	d := vSchemas()
	a := vDefaults()
	var flags []string
	k := 1 + sym.Choose("codecs", 3)
	if k&1 != 0 {
		a.GenerateMessagePack = true
		flags = append(flags, "-msgp")
	}
	if k&2 != 0 {
		a.GenerateAvro, a.ImportPath = true, "imp/pkg"
		flags = append(flags, "-avro", "-importPath=imp/pkg")
	}
	vCompare(d, flags, a, "plain.json", 0)
	sym.Reach("the same files")
}

// Verif_C37_refused: an invocation that cannot be carried out ends with a code other than 0 and writes nothing.
//
// Bounds: no arguments; Avro or GraphQL without an import path; unknown flags; a pair without "="; a boolean flag with
// another value; a schema that does not exist or is no JSON.
func Verif_C37_refused() {
	d := vSchemas()
	vWrite(d+"/in", "bad.json", `{"type":`)
	ok, out := d+"/in/plain.json", d+"/2/pkg"
	cases := [][]string{
		{},
		{"-pointers"},
		{"-avro", ok, out},
		{"-graphql", ok, out},
		{"-avro", "-importPath=", ok, out},
		{"-graphql", "-avro", ok, out},
		{"-graphql", "-outputPathGraphQL=" + d + "/2/gql", "-nestedStructs=false", "-interfaceFiles", "-scalarAny", "-rename=a=b", "-renameFields=a=b", "-renameGraphQLType=a=b", ok, out},
		{"-avro", "-msgp", "-pointers", "-embedAllOf=false", "-descriptionAsStructTag=false", "-rename=a=b", ok, out},
		{"-unknown", ok, out},
		{"-rename", "x", ok, out},
		{"-renameFields=x", ok, out},
		{"-renameGraphQLType", "a=b,x", ok, out},
		{"-pointers=maybe", ok, out},
		{d + "/in/none.json", out},
		{d + "/in/bad.json", out},
		{ok, d + "/none/pkg"},
	}
	code := vMain(cases[sym.Choose("case", len(cases))]...)
	sym.Assert(code != 0, "an invocation that cannot be carried out ends with code 0")
	sym.Assert(vTree(d+"/2") == "gql{}pkg{}", "an invocation that cannot be carried out writes files")
	sym.Reach("refused")
}

// Verif_C37_pairs: a list of pairs sets exactly these pairs, and others remain.
//
// Bounds: every text of up to 6 bytes (thorough: 9); a pair that was set before.
func Verif_C37_pairs() {
	n := 6
	if sym.Tier() > 0 {
		n = 9
	}
	n = sym.Choose("length", n+1)
	s := sym.StrN("pairs", n, 0, 255)
	mf := mapFlags{kv: map[string]string{"b": "old"}}
	err := mf.Set(s)
	want := map[string]string{"b": "old"}
	bad := false
	for rest, more := s, true; more; {
		var pair string
		pair, rest, more = strings.Cut(rest, ",")
		k, v, eq := strings.Cut(pair, "=")
		if !eq {
			bad = true
			break
		}
		want[k] = v
	}
	sym.Assert((err != nil) == bad, "a list of pairs is refused exactly if one of them has no =")
	if bad {
		sym.Reach("refused")
		return
	}
	sym.Assert(len(mf.kv) == len(want), "a list of pairs sets exactly these")
	for k, v := range want {
		w, ok := mf.kv[k]
		sym.Assert(ok && w == v, "a list of pairs sets exactly these")
	}
	all := mf.String()
	for k, v := range want {
		sym.Assert(strings.Contains(" "+all+" ", " -"+k+"="+v+" "), "a pair is not listed")
	}
	sym.Reach("set")
}
