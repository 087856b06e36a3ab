package jsonschema

import (
	"os"
	"strings"
	"sync"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vVerdict checks the answer of a validator.
func vVerdict(v Validator, doc string, want bool) {
	data := []byte(doc)
	ok, err := v.Validate(data)
	sym.Assert(ok == (err == nil), "a document is accepted or there is an error, not both")
	sym.Assert(ok == want, "a document is accepted exactly if it conforms to the schema")
	sym.Assert(string(data) == doc, "validating leaves the document as it was")
}

// Verif_C25_rules checks that the rules of a schema file are applied, wherever they come from.
// Bounds: a rule out of six (required, additional properties, enumeration, pattern, length, type) that stands in the schema itself, in a
// definition, in another file, in a definition of another file in another directory or in a branch of allOf; a document with one
// property with a symbolic name of one letter and a text of up to three symbolic letters, null, a number or an object.
func Verif_C25_rules() {
	d := sym.TempDir()
	name, val := sym.StrN("name", 1, 'a', 'c'), ""
	text, kind := "", sym.Choose("kind", 4)
	switch kind {
	case 0:
		text = sym.StrIn("text", 3, 'a', 'd')
		val = `"` + text + `"`
	case 1:
		val = "null"
	case 2:
		val = "7"
	case 3:
		val = `{"a":"abc"}`
	}
	rule, want := "", false
	isText := kind == 0
	switch sym.Choose("rule", 6) {
	case 0:
		rule, want = `"required":["a"]`, name == "a"
	case 1:
		rule, want = `"properties":{"a":{},"b":{}},"additionalProperties":false`, sym.Or(name == "a", name == "b")
	case 2:
		rule, want = `"properties":{"a":{"enum":["ab","c",null]}}`, sym.Or(name != "a", kind == 1, sym.And(isText, sym.Or(text == "ab", text == "c")))
	case 3:
		rule = `"properties":{"b":{"type":["string","null"],"maxLength":2}}`
		want = sym.Or(name != "b", kind == 1, isText && len(text) <= 2)
	case 4:
		rule = `"properties":{"b":{"minLength":2}}`
		want = sym.Or(name != "b", !isText, len(text) >= 2)
	case 5:
		rule = `"properties":{"c":{"type":"object","required":["a"]}}`
		want = sym.Or(name != "c", kind == 3)
	}
	rule = `{"type":"object",` + rule + `}`
	// the rule applies to the member "in" of the document
	root := ""
	switch sym.Choose("place", 6) {
	case 0:
		root = `{"type":"object","properties":{"in":` + rule + `}}`
	case 1:
		root = `{"type":"object","properties":{"in":{"$ref":"#/definitions/d"}},"definitions":{"d":` + rule + `}}`
	case 2:
		root = `{"type":"object","properties":{"in":{"$ref":"o.json"}}}`
	case 3:
		root = `{"type":"object","properties":{"in":{"$ref":"sub/p.json#/definitions/d"}}}`
	case 4:
		root = `{"type":"object","allOf":[{"properties":{"x":{"type":"string"}}},{"properties":{"in":` + rule + `}}]}`
	case 5:
		root = `{"type":"object","allOf":[{"$ref":"sub/q.json"}]}`
	}
	vFile(d, "o.json", rule)
	vFile(d, "sub/p.json", `{"type":"object","definitions":{"d":`+rule+`}}`)
	vFile(d, "sub/q.json", `{"type":"object","properties":{"in":{"$ref":"../o.json"}}}`)
	path := vFile(d, "s.json", root)
	var v Validator
	if sym.Choose("load", 2) == 0 {
		s, err := SchemaFromFile(path, "")
		if err != nil {
			sym.Fail("a schema is loaded: " + err.Error())
		}
		v = s
	} else {
		n, err := NewValidator(path)
		sym.Assert(err == nil, "a schema is loaded")
		v = n
	}
	vVerdict(v, `{"in":{"`+name+`":`+val+`}}`, want)
	sym.Reach("end")
}

// Verif_C25_text checks that what is no JSON is never accepted.
// Bounds: every text of up to three bytes (thorough: four) at the end, the middle or in place of a document that conforms.
func Verif_C25_text() {
	path := vFile(sym.TempDir(), "s.json", `{"properties":{"a":{"type":"string"}}}`)
	v, err := NewValidator(path)
	sym.Assert(err == nil, "a schema is loaded")
	t := sym.StrIn("text", 2+sym.Tier(), 1, 0x7f)
	doc := []string{t, `{"a":"x"` + t + `}`, `{"a":` + t + `}`, `{"a":"x"}` + t}[sym.Choose("place", 4)]
	ok, err := v.Validate([]byte(doc))
	sym.Assert(ok == (err == nil), "a document is accepted or there is an error, not both")
	if ok {
		sym.Assert(vComplete(doc), "an accepted document is JSON")
		sym.Reach("accepted")
		return
	}
	sym.Reach("rejected")
}

// vComplete is a check that does not use the parser: brackets and quotes are balanced and nothing but white space follows.
func vComplete(doc string) bool {
	depth, str, esc := 0, false, false
	for i := 0; i < len(doc); i++ {
		c := doc[i]
		switch {
		case esc:
			esc = false
		case str:
			if c == '\\' {
				esc = true
			} else if c == '"' {
				str = false
			}
		case c == '"':
			str = true
		case c == '{' || c == '[':
			depth++
		case c == '}' || c == ']':
			depth--
		}
		if depth < 0 {
			return false
		}
	}
	return depth == 0 && !str
}

// Verif_C25_own checks that every schema validates by its own file.
// Bounds: three loads (thorough: four) of two files of one name in two directories which allow different texts of one symbolic letter,
// through SchemaFromFile, SchemaFromFileNoFlatten or NewValidator, with or without a type, in every order; then every one validates.
func Verif_C25_own() {
	d := sym.TempDir()
	l1, l2 := sym.StrN("l1", 1, 'a', 'z'), sym.StrN("l2", 1, 'a', 'z')
	files := []string{}
	for i, l := range []string{l1, l2} {
		sub := []string{"x", "y"}[i]
		files = append(files, vFile(d, sub+"/s.json", `{"type":"object","properties":{"a":{"$ref":"o.json"}}}`))
		vFile(d, sub+"/o.json", `{"type":"string","enum":["`+l+`","0"]}`)
	}
	var vs []Validator
	var of []int
	for i := 0; i < 3+sym.Tier(); i++ {
		f := sym.Choose("file", 2)
		var v Validator
		var err error
		switch sym.Choose("by", 3) {
		case 0:
			v, err = SchemaFromFile(files[f], []string{"", "o"}[sym.Choose("type", 2)])
		case 1:
			v, err = SchemaFromFileNoFlatten(files[f], "")
		case 2:
			v, err = NewValidator(strings.Replace(files[f], "/s.json", "/../"+[]string{"x", "y"}[f]+"/s.json", 1))
		}
		if err != nil {
			sym.Fail("a schema is loaded: " + err.Error())
		}
		vs, of = append(vs, v), append(of, f)
	}
	c := sym.StrN("c", 1, 'a', 'z')
	for i, v := range vs {
		vVerdict(v, `{"a":"`+c+`"}`, c == []string{l1, l2}[of[i]])
	}
	sym.Reach("end")
}

// Verif_C25_missing checks files that cannot be used.
// Bounds: a file that does not exist, is no JSON, is no schema, or refers to a file that does not exist; then the same file repaired.
func Verif_C25_missing() {
	d := sym.TempDir()
	bad := []string{``, `{"type":"object"`, `[]`, `{"type":5}`, `{"type":"nothing"}`, `{"properties":{"a":{"$ref":"none.json"}}}`, `{"properties":{"a":{"$ref":"#/definitions/none"}}}`}
	k := sym.Choose("bad", len(bad)+1)
	path := d + "/s.json"
	if k < len(bad) {
		vFile(d, "s.json", bad[k])
	}
	load := func() (Validator, error) {
		if sym.Choose("by", 2) == 0 {
			s, err := SchemaFromFile(path, "")
			if err != nil {
				sym.Assert(s == nil, "a failed load gives no schema")
			}
			return s, err
		}
		v, err := NewValidator(path)
		if err != nil {
			sym.Assert(v == nil, "a failed load gives no validator")
		}
		return v, err
	}
	_, err := load()
	sym.Assert(err != nil, "a file that is no schema is an error")
	vFile(d, "s.json", `{"type":"object","required":["a"]}`)
	v, err := load()
	sym.Assert(err == nil, "a file can be loaded once it is repaired")
	vVerdict(v, `{"a":1}`, true)
	vVerdict(v, `{"b":1}`, false)
	sym.Reach("end")
}

// Verif_C25_together checks that loading and validating can be done by several goroutines.
// Bounds: two goroutines that load one schema of two files and validate a document with a symbolic letter each, through SchemaFromFile or
// NewValidator; two preemptions at synchronisation operations; every access to shared memory is checked for races.
func Verif_C25_together() {
	d := sym.TempDir()
	path := vFile(d, "s.json", `{"type":"object","properties":{"a":{"$ref":"o.json"}}}`)
	vFile(d, "o.json", `{"type":"string","enum":["k"]}`)
	c := []string{sym.StrN("c1", 1, 'j', 'l'), sym.StrN("c2", 1, 'j', 'l')}
	by := []int{sym.Choose("by1", 2), sym.Choose("by2", 2)}
	oks, errs := make([]bool, 2), make([]error, 2)
	sym.Schedule(2)
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			defer wg.Done()
			var v Validator
			if by[i] == 0 {
				v, errs[i] = SchemaFromFile(path, "")
			} else {
				v, errs[i] = NewValidator(path)
			}
			if errs[i] == nil {
				oks[i], _ = v.Validate([]byte(`{"a":"` + c[i] + `"}`))
			}
		}()
	}
	wg.Wait()
	for i := range oks {
		sym.Assert(errs[i] == nil, "a schema is loaded")
		sym.Assert(oks[i] == (c[i] == "k"), "a document is accepted exactly if it conforms to the schema")
	}
	sym.Reach("end")
}

// Verif_C25_relative checks that a relative path is a path of the directory the program is in when it loads the schema.
// Bounds: three loads of "s.json", "./s.json" or "../x/s.json" from two directories which hold different schemas of one symbolic letter
// under that name (the schema refers to a file beside it), through SchemaFromFile or NewValidator, in every order; then every one validates,
// from a third directory.
func Verif_C25_relative() {
	d := sym.TempDir()
	defer os.Chdir("/")
	l := []string{sym.StrN("l1", 1, 'a', 'z'), sym.StrN("l2", 1, 'a', 'z')}
	for i := range l {
		sub := []string{"x", "y"}[i]
		vFile(d, sub+"/s.json", `{"type":"object","properties":{"a":{"$ref":"o.json"}}}`)
		vFile(d, sub+"/o.json", `{"type":"string","enum":["`+l[i]+`","0"]}`)
	}
	var vs []Validator
	var of []int
	for i := 0; i < 3; i++ {
		in := sym.Choose("in", 2)
		if err := os.Chdir(d + []string{"/x", "/y"}[in]); err != nil {
			sym.Fail("chdir: " + err.Error())
		}
		f := sym.Choose("path", 3)
		path := []string{"s.json", "./s.json", "../x/s.json"}[f]
		if f == 2 {
			in = 0
		}
		var v Validator
		var err error
		if sym.Choose("by", 2) == 0 {
			v, err = SchemaFromFile(path, "")
		} else {
			v, err = NewValidator(path)
		}
		if err != nil {
			sym.Fail("a schema is loaded: " + err.Error())
		}
		vs, of = append(vs, v), append(of, in)
	}
	os.Chdir(d)
	c := sym.StrN("c", 1, 'a', 'z')
	for i, v := range vs {
		vVerdict(v, `{"a":"`+c+`"}`, c == l[of[i]])
	}
	sym.Reach("end")
}
