SEEDS={}
T='transform/'
J='jsonschema/'
def seed(id,prop,pkg,edits,demo,needs,breaks,**kw):
    SEEDS[id]=dict(property=prop,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks,**kw)

seed('S01','C07','transform',[(T+'instance.go','''	if err == nil && rawValue != nil {
		newValue, ok := rawValue.([]interface{})
		if !ok {
			newValue = []interface{}{rawValue}
		}
''','''	if err == nil && rawValue != nil {
		newValue, ok := rawValue.([]interface{})
		if ok && len(newValue) == 1 && newValue[0] == nil {
			newValue = nil
		}
		if !ok {
			newValue = []interface{}{rawValue}
		}
''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"array","items":{"type":"string","default":"d"}}}}`, "x", false)
	expect(t, tr, `{"a":[null,"x"]}`, `{"a":["d","x"]}`)
	expect(t, tr, `{"a":[null]}`, `{"a":["d"]}`)
}
''','a list with null as its only element and a default of the items','the item is missing')

seed('S02','C05','transform',[(T+'utils.go','''delimiter != "" && a.(string) != "" && b.(string) != ""''','''delimiter != "" && a.(string) != "" && b.(string) != "" && !strings.HasPrefix(b.(string), delimiter)''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"string","transform":{"x":{"method":"concatenate","methodOptions":{"concatenateDelimiter":"-"},"from":[{"jsonPath":"$.p"},{"jsonPath":"$.q"}]}}}}}`, "x", false)
	expect(t, tr, `{"p":"1","q":"2"}`, `{"a":"1-2"}`)
	expect(t, tr, `{"p":"1","q":"-2"}`, `{"a":"1--2"}`)
}
''','a second text that begins with the delimiter','the delimiter between two non-empty texts is missing')

seed('S03','C07','transform',[(T+'instance.go','''	for i := range base {
		currentPath := path + fmt.Sprintf("[%d]", i)

''','''	for range base {
		currentPath := path + fmt.Sprintf("[%d]", len(newArray))

''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"array","items":{"type":"object","properties":{"v":{"type":"string"}}}}}}`, "x", false)
	expect(t, tr, `{"a":[{"v":"1"},{"v":"2"}]}`, `{"a":[{"v":"1"},{"v":"2"}]}`)
	expect(t, tr, `{"a":[{"v":"1"},{},{"v":"3"}]}`, `{"a":[{"v":"1"},{"v":"3"}]}`)
}
''','an element that yields no value before one that does','items after the gap read the element before their own')

seed('S04','C16','transform',[(T+'operations.go','''		if err != nil {
			return nil, fmt.Errorf("failed extracting 'by' field: %v", err)
		}''','''		if err != nil {
			continue
		}''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"string","transform":{"x":{"from":[{"jsonPath":"$.l","operations":[{"type":"max","args":{"by":"@.n","return":"@.r"}}]}]}}}}}`, "x", false)
	expect(t, tr, `{"l":[{"n":1,"r":"a"},{"n":2,"r":"b"}]}`, `{"a":"b"}`)
	expect(t, tr, `{"l":[{"n":1,"r":"a"},{"r":"b"}]}`, ``)
}
''','an item without the compared field','such an item is ignored instead of being an error')

seed('S05','C10','transform',[(T+'operations.go','''	if in == "" {
		return []interface{}{}, nil''','''	if strings.TrimSpace(in) == "" {
		return []interface{}{}, nil''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"array","items":{"type":"string"},"transform":{"x":{"from":[{"jsonPath":"$.p","operations":[{"type":"split","args":{"on":","}}]}]}}}}}`, "x", false)
	expect(t, tr, `{"p":"1,2"}`, `{"a":["1","2"]}`)
	expect(t, tr, `{"p":" "}`, `{"a":[" "]}`)
}
''','a text of white space only','splitting a text of blanks loses the text')

seed('S07','C09','transform',[(T+'operations.go','''	hours, err := strconv.Atoi(matches[1])
	if err != nil''','''	parsed, err := strconv.ParseInt(matches[1], 0, 0)
	hours := int(parsed)
	if err != nil''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"integer","transform":{"x":{"from":[{"jsonPath":"$.p","operations":[{"type":"duration","args":{}}]}]}}}}}`, "x", false)
	expect(t, tr, `{"p":"01:00:00"}`, `{"a":3600}`)
	expect(t, tr, `{"p":"010:00:00"}`, `{"a":36000}`)
	expect(t, tr, `{"p":"09:00:00"}`, `{"a":32400}`)
}
''','hours with a leading zero that read differently as an octal number','hours with a leading zero are read as octal')

seed('S08','C08','transform',[(T+'transformer.go','''					if _, ok := newValue[k]; !ok {
						newValue[k] = v
					}''','''					newValue[k] = v''')],'''
func TestDemo(t *testing.T) {
	tree := map[string]interface{}{"a": []interface{}{map[string]interface{}{"k": "old", "o": "1"}}}
	if err := saveInTree(tree, "$.a[0]", map[string]interface{}{"k": "new"}); err != nil {
		t.Fatal(err)
	}
	if got := fmt.Sprint(tree); got != "map[a:[map[k:new o:1]]]" {
		t.Errorf("got %s", got)
	}
}
''','a map stored into a list slot which already holds a map with the same key','the value that is stored is lost',imports=['fmt','testing'],head='package transform\n\nimport (\n%(imports)s\n)\n')

seed('S10','C14','transform',[(T+'transformer.go','''		return nil, fmt.Errorf("transformed result validation error: %v", err)''','''		return transformedXML, fmt.Errorf("transformed result validation error: %v", err)''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"string","transform":{"x":{"from":[{"xmlPath":"//a"}]}}}},"required":["a"]}`, "x", true)
	out, err := tr.Transform([]byte(`<r><b>1</b></r>`))
	if err == nil || out != nil {
		t.Errorf("got %s %v", out, err)
	}
}
''','XML input whose output does not conform to the schema','a document that failed validation is returned')

seed('S12','C20','jsonschema',[(J+'cache.go','''		v, err := builder()
		if err != nil {
			// Build fail.
			return v, err
		}
		// Build succes.
		c.data.Store(key, v)
		return v, nil''','''		v, err := builder()
		// Build done.
		c.data.Store(key, v)
		return v, err''')],'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	p := filepath.Join(d, "s.json")
	if _, err := jsonschema.SchemaFromFile(p, ""); err == nil {
		t.Fatal("no error")
	}
	s, err := jsonschema.SchemaFromFile(p, "")
	if err == nil || s != nil {
		t.Fatalf("second load gives %v %v", s, err)
	}
	put(t, d, map[string]string{"s.json": `{"type":"object","properties":{"a":{"type":"string"}}}`})
	s, err = jsonschema.SchemaFromFile(p, "")
	if err != nil || s == nil || len(s.Properties) != 1 {
		t.Fatalf("load after repair gives %v %v", s, err)
	}
}
''','a failed load followed by another load of the same file','a failed load is remembered as a schema')

seed('S13','C21','jsonschema',[(J+'schema.go','''			if subName != oneOfType {''','''			if !strings.EqualFold(subName, oneOfType) {''')],'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	put(t, d, map[string]string{
		"s.json":    `{"type":"object","oneOf":[{"$ref":"image.json"},{"$ref":"Image.json"}]}`,
		"image.json": `{"type":"object","properties":{"a":{"type":"string"}}}`,
		"Image.json": `{"type":"object","properties":{"b":{"type":"string"}}}`,
	})
	s, err := jsonschema.SchemaFromFile(filepath.Join(d, "s.json"), "Image")
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := s.Properties["a"]; ok || len(s.Properties) != 1 {
		t.Errorf("got %v", s.Properties)
	}
}
''','oneOf branches whose names differ in case only','a branch that was not asked for is merged')

seed('S14','C23','jsonschema',[(J+'walk.go','''	for key, value := range s.Properties {
		if err := walkRaw(value, prependJSONPath(rootPath, key), walkFn); err != nil {
			return err
		}
	}

	if s.Items != nil {''','''	for key, value := range s.Properties {
		if err := walkRaw(value, prependJSONPath(rootPath, key), walkFn); err != nil {
			return err
		}
	}

	if s.Items != nil && s.Properties == nil {''')],'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	put(t, d, map[string]string{"s.json": `{"type":"array","properties":{"a":{"type":"string"}},"items":{"type":"string"}}`})
	s, err := jsonschema.SchemaFromFile(filepath.Join(d, "s.json"), "")
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	jsonschema.WalkRaw(s, func(path string, value json.RawMessage) error { n++; return nil })
	if n != 2 {
		t.Errorf("%d instances", n)
	}
}
''','a root with properties and items','the items of the root are not visited',imports=['encoding/json'])

seed('S15','C24','jsonschema',[(J+'schema.go','''				nullable = true
			default:''','''				nullable = jsonType != ""
			default:''')],'''
func TestDemo(t *testing.T) {
	for _, d := range []string{`["string","null"]`, `["null","string"]`} {
		n, nullable, err := jsonschema.FieldType([]byte(`{"type":` + d + `}`))
		if n != "string" || !nullable || err != nil {
			t.Errorf("%s: %s %v %v", d, n, nullable, err)
		}
	}
}
''','null before the type in the list','the field is not recognised as nullable')

seed('S16','C22','jsonschema',[(J+'reference.go','''				index++
				if adataType != jsonparser.Object {
					return
				}''','''				if adataType != jsonparser.Object {
					return
				}
				index++''')],'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	put(t, d, map[string]string{
		"s.json": `{"type":"object","definitions":{"d":{"type":"string"}},"properties":{"a":{"type":"object","properties":{},"allOf":[true,{"$ref":"#/definitions/d"}]}}}`,
	})
	done := make(chan error, 1)
	go func() {
		s, err := jsonschema.SchemaFromFile(filepath.Join(d, "s.json"), "")
		if err == nil && strings.Contains(string(s.Properties["a"]), "$ref") {
			err = fmt.Errorf("left: %s", s.Properties["a"])
		}
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Error(err)
		}
	case <-time.After(20 * time.Second):
		t.Error("no answer")
	}
}
''','a list holding something that is no object before a reference','the reference is looked for at the wrong index',imports=['strings','time'])

seed('S17','C02','transform',[(T+'transform.go','''	for _, from := range fromList {
		value, err''','''	for i, from := range fromList {
		value, err'''),(T+'transform.go','''			result = value
			break''','''			result = value
			if tis.Method == first && i > 1 {
				// most documents of one source have the same layout, try this path first next time
				copy(fromList[1:], fromList[:i])
				fromList[0] = from
			}
			break''')],'''
func TestDemo(t *testing.T) {
	s := `{"type":"object","properties":{"a":{"type":"string","transform":{"x":{"from":[{"jsonPath":"$.p"},{"jsonPath":"$.q"},{"jsonPath":"$.r"}]}}}}}`
	tr := must(t, s, "x", false)
	expect(t, tr, `{"p":"1","q":"2","r":"3"}`, `{"a":"1"}`)
	expect(t, tr, `{"r":"3"}`, `{"a":"3"}`)
	expect(t, tr, `{"p":"1","q":"2","r":"3"}`, `{"a":"1"}`)
}
''','three or more alternative paths and an earlier document that has only the third or a later one','the order of the paths changes with the documents seen')

seed('S18','C03','transform',[(T+'instance.go','''		if err == nil && newValue != nil {
			return newValue, nil
		}
	}

	// 3.''','''		if err == nil && newValue != nil {
			if parent, ok := in.(map[string]interface{}); ok && st.transforms != nil {
				// siblings with the same source need not convert it again
				if _, ok := rawValue.(string); ok {
					_ = saveInTree(parent, path, newValue)
				}
			}
			return newValue, nil
		}
	}

	// 3.''')],'''
func TestDemo(t *testing.T) {
	s := `{"type":"object","properties":{"a":{"type":"number","transform":{"x":{"from":[{"jsonPath":"$.n"}]}}},"b":{"type":"string","transform":{"x":{"from":[{"jsonPath":"$.a"}]}}}}}`
	for i := 0; i < 100; i++ {
		expect(t, must(t, s, "x", false), `{"a":"1.50"}`, `{"a":1.5,"b":"1.50"}`)
	}
}
''','a field whose transform finds nothing and falls back to the same path, converted from a text, and a sibling reading that path','the input is changed while siblings read it')

seed('S19','C13','transform',[(T+'transform.go','''				values[i] = node.InnerText()''','''				values[i] = strings.TrimSpace(node.InnerText())''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"string","transform":{"x":{"from":[{"xmlPath":"//p"}]}}}}}`, "x", true)
	expect(t, tr, `<r><p>1</p><p>2</p></r>`, `{"a":"1 2"}`)
	expect(t, tr, `<r><p>1</p><p> 2</p></r>`, `{"a":"1  2"}`)
}
''','several matching elements with surrounding white space','the texts are changed before they are joined')

seed('S20','C17','transform',[(T+'operations.go','''type changeCase struct {
	args map[string]string
}''','''type changeCase struct {
	args    map[string]string
	in, out string
}'''),(T+'operations.go','''	switch c.args["to"] {
	case "lower":
		return strings.ToLower(in), nil
	case "upper":
		return strings.ToUpper(in), nil
	}''','''	if in == c.in {
		return c.out, nil
	}
	switch c.args["to"] {
	case "lower":
		c.in, c.out = in, strings.ToLower(in)
		return c.out, nil
	case "upper":
		c.in, c.out = in, strings.ToUpper(in)
		return c.out, nil
	}''')],'''
func TestDemo(t *testing.T) {
	s := `{"type":"object","properties":{"a":{"type":"string","transform":{"x":{"from":[{"jsonPath":"$.p","operations":[{"type":"changeCase","args":{"to":"upper"}}]}]}}}}}`
	tr := must(t, s, "x", false)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				w := fmt.Sprintf("%d%d", g, i%7)
				out, err := tr.TransformNoValidation([]byte(`{"p":"a` + w + `"}`))
				if err != nil || string(out) != `{"a":"A`+w+`"}` {
					t.Errorf("%s gives %s %v", w, out, err)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
''','two goroutines in the same changeCase operation','data race: a goroutine can get the text of another one',imports=['sync'],flags='-race')

seed('S21','C01','transform',[(T+'transformer.go','''		newTreeMap, ok = newTree.(map[string]interface{})
		if !ok {
			return fmt.Errorf("value at %q is not a map[string]interface{}", splits[0])
		}''','''		newTreeMap, _ = newTree.(map[string]interface{})''')],'''
func TestDemo(t *testing.T) {
	s := `{"type":"object","properties":{"a":{"type":"object","properties":{"b":{"type":"array","items":{"type":"string"},"transform":{"x":{"from":[{"jsonPath":"$.s"}]}}}}}}}`
	tr := must(t, s, "x", false)
	expect(t, tr, `{"s":"1"}`, `{"a":{"b":["1"]}}`)
	expect(t, tr, `{"s":"1","a":5}`, ``)
}
''','a scalar in the input where the schema has an object with a transformed array','panic: assignment to entry in nil map')

seed('S22','C11','transform',[(T+'operations.go','''strconv.ParseInt(in, 10, 64)''','''strconv.ParseInt(in, 0, 64)''')],'''
func TestDemo(t *testing.T) {
	s := `{"type":"object","properties":{"a":{"type":"string","transform":{"x":{"from":[{"jsonPath":"$.p","operations":[{"type":"convertToInt64","args":{}}]}]}}}}}`
	tr := must(t, s, "x", false)
	expect(t, tr, `{"p":"12"}`, `{"a":12}`)
	expect(t, tr, `{"p":"012"}`, `{"a":12}`)
	expect(t, tr, `{"p":"0x1"}`, ``)
}
''','a text with a leading zero or a base prefix','the text is read in another base')

seed('S23','C25','jsonschema',[(J+'validator.go','''validatorCache.Load(schemaRef, func()''','''validatorCache.Load(filepath.Base(filepath.Dir(path))+"/"+filepath.Base(path), func()''')],'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	put(t, d, map[string]string{
		"v1/schema/s.json": `{"type":"object","properties":{"a":{"type":"string"}}}`,
		"v2/schema/s.json": `{"type":"object","properties":{"a":{"type":"number"}}}`,
	})
	for _, v := range []string{"v1", "v2"} {
		s, err := jsonschema.SchemaFromFile(filepath.Join(d, v, "schema/s.json"), "")
		if err != nil {
			t.Fatal(err)
		}
		ok, _ := s.Validate([]byte(`{"a":"x"}`))
		if ok != (v == "v1") {
			t.Errorf("%s: %v", v, ok)
		}
	}
}
''','two schema files with the same name and parent folder name loaded in one process','documents are validated with the rules of the other file')

seed('S25','C20','jsonschema',[(J+'cache.go','''	vCache, err, _ := c.flight.Do(key, func''','''	vCache, err, _ := c.flight.Do(strings.ToLower(key), func'''),(J+'cache.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],'''
func TestDemo(t *testing.T) {
	var c jsonschema.Cache[string]
	started, release := make(chan bool), make(chan bool)
	go c.Load("a", func() (string, error) {
		close(started)
		<-release
		return "lower", nil
	})
	<-started
	got := make(chan string)
	go func() {
		v, _ := c.Load("A", func() (string, error) { return "upper", nil })
		got <- v
	}()
	select {
	case v := <-got:
		if v != "upper" {
			t.Errorf("got %s", v)
		}
		close(release)
	case <-time.After(time.Second):
		close(release)
		if v := <-got; v != "upper" {
			t.Errorf("got %s", v)
		}
	}
}
''','concurrent loads of two files whose names differ in case only','a caller gets the schema of another file',imports=['time'])

seed('S26','C10','transform',[(T+'operations.go','''r.regex.ReplaceAllString(in, r.args["new"])''','''r.regex.ReplaceAllLiteralString(in, r.args["new"])''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"string","transform":{"x":{"from":[{"jsonPath":"$.p","operations":[{"type":"replace","args":{"regex":"(a)(b)","new":"$2$1"}}]}]}}}}}`, "x", false)
	expect(t, tr, `{"p":"ab"}`, `{"a":"ba"}`)
}
''','a replacement with a group reference','groups of the expression are not expanded')

seed('S09','C12','transform',[(T+'operations.go','''	value := args["to"]
	if value''','''	value := strings.ToLower(args["to"])
	if value''')],'''
func TestDemo(t *testing.T) {
	_, err := build(t, `{"type":"object","properties":{"a":{"type":"string","transform":{"x":{"from":[{"jsonPath":"$.p","operations":[{"type":"changeCase","args":{"to":"Upper"}}]}]}}}}}`, "x", false)
	if err == nil {
		t.Error("accepted")
	}
}
''','a case argument written with capital letters','a case that is not known is accepted and every transform fails')

seed('S11','C15','transform',[(T+'utils.go','''	rawTransformInstruction, _, _, err := jsonparser.Get(raw, "transform", transformIdentifier)
''','''	rawTransformInstruction, _, _, err := jsonparser.Get(raw, "transform", transformIdentifier)
	if err == jsonparser.KeyPathNotFoundError {
		rawTransformInstruction, _, _, err = jsonparser.Get(raw, "transform", strings.ToLower(transformIdentifier))
	}
''')],'''
func TestDemo(t *testing.T) {
	s := `{"type":"object","properties":{"a":{"type":"string","transform":{"x":{"from":[{"jsonPath":"$.q"}]}}}}}`
	expect(t, must(t, s, "X", false), `{"a":"1","q":"2"}`, `{"a":"1"}`)
	expect(t, must(t, s, "x", false), `{"a":"1","q":"2"}`, `{"a":"2"}`)
}
''','identifiers which differ in case only','the section of another identifier has effect')

seed('S24','C06','transform',[(T+'utils.go','''	case float64:
		return strconv.FormatFloat(t, 'f', -1, 64), nil''','''	case float64:
		if n := int64(t); t == math.Trunc(t) {
			return strconv.FormatInt(n, 10), nil
		}
		return strconv.FormatFloat(t, 'f', -1, 64), nil'''),(T+'utils.go','''	"fmt"
''','''	"fmt"
	"math"
''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"string"}}}`, "x", false)
	expect(t, tr, `{"a":1.5}`, `{"a":"1.5"}`)
	expect(t, tr, `{"a":1e19}`, `{"a":"10000000000000000000"}`)
}
''','a whole number outside the range of 64 bit integers','the text is not the one that denotes the number')

seed('S06','C06','transform',[(T+'utils.go','''		if value, err := strconv.Atoi(t); err == nil {
			return value, nil''','''		if value, err := strconv.ParseInt(t, 0, 64); err == nil {
			return int(value), nil''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"number"}}}`, "x", false)
	expect(t, tr, `{"a":"1.5"}`, `{"a":1.5}`)
	expect(t, tr, `{"a":"010"}`, `{"a":10}`)
}
''','a number text with a leading zero','the number is read as octal')

G='generate/'
seed('S27','C31','generate',[(G+'struct.go','''gof.args.Pointers && !gen.requiredFields[name] ||''','''gof.args.Pointers && !gof.rootStruct.requiredFields[name] ||''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{"root.json": `{"type":"object","required":["a"],"properties":{"a":{"type":"object","required":["b"],"properties":{
		"b":{"type":"object","properties":{"x":{"type":"string"}}},"a":{"type":"object","properties":{"x":{"type":"string"}}}}}}}`},
		generate.BuildArgs{NoNestedStructs: true, Pointers: true})["root.go"]
	has(t, got, `A +RootA `, true)
	has(t, got, `B +RootAB `, true)
	has(t, got, `A +\\*RootAA `, true)
}
''','an object two levels deep that is required or optional unlike a property of its name in the root','required objects become pointers and optional ones do not')

seed('S28','C32','generate',[(G+'struct.go','''		return nested[i].name < nested[j].name
''','''		return strings.ToLower(nested[i].name) < strings.ToLower(nested[j].name)
''')],'''
func TestDemo(t *testing.T) {
	first := ""
	for i := 0; i < 60; i++ {
		got := all(t, map[string]string{"root.json": `{"type":"object","properties":{"aB":{"type":"object","properties":{"x":{"type":"string"}}},"ab":{"type":"object","properties":{"y":{"type":"string"}}}}}`},
			generate.BuildArgs{NoNestedStructs: true})["root.go"]
		if first == "" {
			first = got
		}
		if got != first {
			t.Fatalf("two results:\\n%s\\n%s", first, got)
		}
	}
}
''','two objects whose names differ in case only','the order of the struct types depends on the map iteration order')

seed('S29','C33','generate',[(G+'avro.go','''	newcfg.excludeFields = nil
''','')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{
		"root.json": `{"allOf":[{"$ref":"base.json"}],"oneOf":[{"$ref":"one.json"}]}`,
		"base.json": `{"type":"object","properties":{"a":{"type":"string"},"n":{"type":"object","properties":{"a":{"type":"string"},"b":{"type":"string"}}}}}`,
		"one.json":  `{"type":"object","properties":{"a":{"type":"string"}}}`,
	}, generate.BuildArgs{GenerateAvro: true})
	has(t, got["base.avsc"], `"name":"n_record","namespace":"n","type":"record","fields":.{"name":"a"`, true)
	has(t, got["one.avsc"], `"name":"n_record","namespace":"Base.n","type":"record","fields":.{"name":"a"`, true)
}
''','an embedded struct with an object that has a field of the name of a field of the struct','the field is missing in the nested record')

seed('S30','C34','generate',[(G+'graphql.go','''		if gen.target != "" || gen.buildType == "ignored" {
			obj.buildType''','''		if gen.target != "" {
			obj.buildType''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{"root.json": `{"type":"object","properties":{"a":{"type":"object","graphqlTarget":"Other","graphql-target":"Other","target":"Other","graphQLTarget":"Other","properties":{
		"b":{"type":"object","properties":{"c":{"type":"object","properties":{"x":{"type":"string"}}}}}}}}}`},
		generate.BuildArgs{NoNestedStructs: true, GenerateGraphQL: true})["root.graphqls"]
	has(t, got, `a: Other`, true)
	has(t, got, `type RootA`, false)
}
''','objects in objects in an object whose type is overridden','types that are not used are declared')

seed('S31','C35','generate',[(G+'graphql.go','''GraphQLTypeNameMap[gqlTypeName]; ok {''','''GraphQLTypeNameMap[gqlTypeName]; ok && gen == gof.rootStruct {''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{"root.json": `{"type":"object","properties":{"a":{"type":"object","properties":{"b":{"type":"object","properties":{"x":{"type":"string"}}}}}}}`},
		generate.BuildArgs{NoNestedStructs: true, GenerateGraphQL: true, GraphQLTypeNameMap: map[string]string{"RootAB": "Other"}})["root.graphqls"]
	has(t, got, `type Other `, true)
	has(t, got, `b: Other`, true)
}
''','a renamed type of an object in an object','the type keeps its name')

seed('S32','C36','generate',[(G+'graphql.go','''description = strings.TrimSpace(strings.Join(lines[1:], "\\n"))''','''description = strings.TrimSpace(strings.Join(lines[1:min(2, len(lines))], "\\n"))''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{"root.json": `{"type":"object","properties":{"a":{"type":"string","description":"DEPRECATED: old\\nfirst\\nsecond"}}}`},
		generate.BuildArgs{NoNestedStructs: true, GenerateGraphQL: true})["root.graphqls"]
	has(t, got, `first\\n *second`, true)
}
''','a deprecated field with a description of several lines','only the first line of the description remains')

seed('S33','C37','.',[('main.go','''	for _, pair := range strings.Split(value, ",") {
		kv :=''','''	mf.kv = make(map[string]string)
	for _, pair := range strings.Split(value, ",") {
		kv :=''')],'''
func TestDemo(t *testing.T) {
	mf := &mapFlags{kv: map[string]string{}}
	if mf.Set("a=b") != nil || mf.Set("c=d") != nil {
		t.Fatal("error")
	}
	if len(mf.kv) != 2 {
		t.Error(mf.kv)
	}
}
''','a renaming flag given twice','only the last one has effect')

seed('S34','C38','generate',[(G+'graphql.go','''		for _, lf := range lfo {
			generated''','''		for _, lf := range lfo {
			if generated.rootStruct.fields[lf] != nil {
				continue // a field of the interface
			}
			generated''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{
		"root.json": `{"allOf":[{"$ref":"base.json"}],"oneOf":[{"$ref":"one.json"}]}`,
		"base.json": `{"type":"object","properties":{"a":{"type":["string","null"]}}}`,
		"one.json":  `{"type":"object","properties":{"a":{"type":"string"}}}`,
	}, generate.BuildArgs{NoNestedStructs: true, GenerateGraphQL: true})["root.graphqls"]
	has(t, got, `(?s)type one .*a: String!`, true)
}
''','a branch that declares a property of a shared schema again','the branch type has the field of the shared schema instead of its own')

OBJ='{"type":"object","properties":{%s}}'
seed('S35','C39','gencode',[(G+'avro_helpers.go','''	"SetDefault":           true,
''','')],'''
func TestDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	if err := (&Root{SetDefault: "x"}).WriteAvroCF(buf, time.Now()); err != nil {
		t.Fatal(err)
	}
}
''','a property named setDefault','no Avro code can be generated',imports=['bytes','time'],flags='-avro',files={'root.json':OBJ%'"setDefault":{"type":"string"}'})

seed('S36','C40','generate',[(G+'generate.go','''	return printer.PrintFile(filepath.Join(outputDir, fs.Package+msgpSuffix+".go"), fs, mode)''','''	outPath := filepath.Join(outputDir, fs.Package+msgpSuffix+".go")
	if _, err := os.Stat(outPath); err == nil && len(fs.Identities) == 1 {
		return nil // there is nothing but the struct it was made for
	}
	return printer.PrintFile(outPath, fs, mode)''')],'''
func TestDemo(t *testing.T) {
	out := filepath.Join(t.TempDir(), "pkg")
	os.MkdirAll(out, 0o700)
	for _, name := range []string{"a", "b"} {
		in := t.TempDir()
		put(t, in, map[string]string{"root.json": fmt.Sprintf(`{"type":"object","properties":{%q:{"type":"string"}}}`, name)})
		if err := generate.BuildStructsWithArgs(generate.BuildArgs{SchemaPath: filepath.Join(in, "root.json"), OutputDir: out, GenerateMessagePack: true}); err != nil {
			t.Fatal(err)
		}
	}
	has(t, read(t, filepath.Join(out, "pkg_msgp.go")), `z.B`, true)
}
''','a second run after the schema was changed','the code is that of the old schema and does not compile')

seed('S41','C38','generate',[(G+'struct.go','''			if newName, ok := args.StructNameMap[ref]; ok {
				ref = newName
			} else {
				ref = exportedName(ref)
			}
''','''			ref = exportedName(ref)
''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{
		"root.json": `{"allOf":[{"$ref":"base.json"}],"oneOf":[{"$ref":"one.json"}]}`,
		"base.json": `{"type":"object","properties":{"a":{"type":"string"}}}`,
		"one.json":  `{"type":"object","allOf":[{"$ref":"base.json"}],"properties":{"b":{"type":"string"}}}`,
	}, generate.BuildArgs{EmbedAllOf: true, StructNameMap: map[string]string{"base": "Common"}})
	has(t, got["one.go"], `\\n\\tBase\\n`, false)
}
''','a renamed shared schema of a branch with EmbedAllOf','the branch struct embeds a type that does not exist')
seed('S37','C30','generate',[(G+'avro_helpers.go','''		if t == nil {
			continue''','''		if t == nil || t.IsZero() {
			continue''')],'''
func TestDemo(t *testing.T) {
	a, z := time.Unix(1, 0), time.Time{}
	if got := generate.AvroOptionalTimeSlice([]*time.Time{&a, nil, &a}); len(got) != 2 {
		t.Error(got)
	}
	if got := generate.AvroOptionalTimeSlice([]*time.Time{&a, &z, &a}); len(got) != 3 || got[1] != z.UnixMilli() {
		t.Error(got)
	}
}
''','the zero time in a list of optional times','the time is left out',imports=['time'])

seed('S38','C31','generate',[(G+'struct.go','''slices.Contains(inst.Type, "string") && inst.Format''','''len(inst.Type) > 0 && inst.Type[0] == "string" && inst.Format''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{"root.json": `{"type":"object","properties":{"a":{"type":["null","string"],"format":"date-time"}}}`}, generate.BuildArgs{})["root.go"]
	has(t, got, `time.Time`, true)
}
''','a date-time whose type is written null first','the field is a string')

seed('S39','C34','generate',[(G+'graphql.go','''		if slices.Contains(inst.Type, "string") && inst.Format == "date-time" {
			f.jsonType''','''		if len(inst.Type) == 1 && inst.Type[0] == "string" && inst.Format == "date-time" {
			f.jsonType''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{"root.json": `{"type":"object","properties":{"a":{"type":["string","null"],"format":"date-time"}}}`},
		generate.BuildArgs{NoNestedStructs: true, GenerateGraphQL: true})["root.graphqls"]
	has(t, got, `a: DateTime`, true)
}
''','a date-time that may be null','the field is a String')

seed('S40','C38','generate',[(G+'generate.go','''		embeds = append(embeds, name)
''','''		embeds = append(embeds, exportedName(strings.Split(filepath.Base(allOfPath), ".")[0]))
''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{
		"root.json": `{"allOf":[{"$ref":"base.json"}],"oneOf":[{"$ref":"one.json"}]}`,
		"base.json": `{"type":"object","properties":{"a":{"type":"string"}}}`,
		"one.json":  `{"type":"object","properties":{"b":{"type":"string"}}}`,
	}, generate.BuildArgs{StructNameMap: map[string]string{"base": "Common"}})
	has(t, got["base.go"], `type Common struct`, true)
	has(t, got["one.go"], `\\n\\tCommon\\n`, true)
}
''','a renamed shared schema','the branch struct embeds a type that does not exist')

seed('S42','C41','generate',[(G+'generate.go','''	err = generated.write(gfile)
''','''	out := bufio.NewWriter(gfile)
	defer out.Flush()

	err = generated.write(out)
'''),(G+'generate.go','''import (
''','''import (
	"bufio"
''')],'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	put(t, d, map[string]string{"thing.json": `{"type":"object","properties":{"a":{"type":"string"}}}`})
	os.Mkdir(d+"/out", 0o755)
	os.Symlink("/dev/full", d+"/out/thing.go")
	if err := generate.BuildStructsWithArgs(generate.BuildArgs{SchemaPath: d + "/thing.json", OutputDir: d + "/out"}); err == nil {
		t.Error("no error on a full disk")
	}
}
''','a full disk and a file that fits into one buffer','success is reported although the Go file is empty',imports=[])

seed('S43','C41','generate',[(G+'graphql.go','''	if _, err := w.Write(buf.Bytes()); err != nil {
		return fmt.Errorf("error writing to io.Writer: %w", err)
	}
	return nil
''','''	if n, err := w.Write(buf.Bytes()); n == 0 && err != nil {
		return fmt.Errorf("error writing to io.Writer: %w", err)
	}
	return nil
''')],'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	put(t, d, map[string]string{"thing.json": `{"type":"object","properties":{"a":{"type":"string"}}}`})
	os.Mkdir(d+"/out", 0o755)
	args := generate.BuildArgs{SchemaPath: d + "/thing.json", OutputDir: d + "/out", NoNestedStructs: true, GenerateGraphQL: true}
	if err := generate.BuildStructsWithArgs(args); err != nil {
		t.Fatal(err)
	}
	size := len(read(t, d+"/out/thing.graphqls"))
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(size - 1), Max: old.Max})
	// the Go file is a symbolic link to a device, which has no size
	os.Remove(d + "/out/thing.go")
	os.Symlink("/dev/null", d+"/out/thing.go")
	err := generate.BuildStructsWithArgs(args)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Error("no error although the GraphQL file is cut off")
	}
}
''','a disk that is full within the GraphQL file','success is reported although the GraphQL file is cut off',imports=["os/signal","syscall"])

seed('S44','C36','generate',[(G+'graphql.go','''			if strings.HasPrefix(f.description, "DEPRECATED:") {
				lines''','''			if strings.HasPrefix(f.description, "DEPRECATED: ") {
				lines''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{"root.json": `{"type":"object","properties":{"a":{"type":"array","description":"DEPRECATED:old","items":{"type":"string"}}}}`},
		generate.BuildArgs{NoNestedStructs: true, GenerateGraphQL: true})["root.graphqls"]
	has(t, got, `(?s)a.*@deprecated.reason: "old".*totalA: Int! @deprecated.reason: "old"`, true)
}
''','a deprecated list without a blank before the reason','the total of the list is not deprecated')

seed('S45','C10','transform',[(T+'operations.go','''strings.Split(in, s.args["on"])''','''strings.SplitN(in, s.args["on"], 8)''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"array","items":{"type":"string"},"transform":{"x":{"from":[{"jsonPath":"$.s","operations":[{"type":"split","args":{"on":","}}]}]}}}}}`, "x", false)
	expect(t, tr, `{"s":"1,2,3"}`, `{"a":["1","2","3"]}`)
	expect(t, tr, `{"s":"1,2,3,4,5,6,7,8,9"}`, `{"a":["1","2","3","4","5","6","7","8","9"]}`)
}
''','a text of more than eight parts','the remaining parts are one')

seed('S46','C11','transform',[(T+'operations.go','''		return strconv.ParseFloat(in, 64)
''','''		v, err := strconv.ParseFloat(in, 64)
		if errors.Is(err, strconv.ErrRange) {
			return v, nil
		}
		return v, err
''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"boolean","transform":{"x":{"from":[{"jsonPath":"$.s","operations":[{"type":"convertToFloat64","args":{}}, {"type":"convertToBool","args":{}}]}]}}}}}`, "x", false)
	expect(t, tr, `{"s":"1e300"}`, `{"a":true}`)
	expect(t, tr, `{"s":"1e400"}`, ``)
}
''','a number in a text that is too large for a float64','infinity is taken for the number')

seed('S47','C05','transform',[(T+'transform.go','''i := len(tis.From) - 1; i >= 0; i--''','''i := len(tis.From) - 1; i >= 0 && i >= len(tis.From)-3; i--''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"a":{"type":"string","transform":{"x":{"method":"last","from":[{"jsonPath":"$.p"},{"jsonPath":"$.q"},{"jsonPath":"$.r"},{"jsonPath":"$.s"}]}}}}}`, "x", false)
	expect(t, tr, `{"p":"1","q":"2"}`, `{"a":"2"}`)
	expect(t, tr, `{"p":"1"}`, `{"a":"1"}`)
}
''','four sources of which only the first has a value','the value of the first source is not found')

seed('S48','C04','transform',[(T+'instance.go','''	// 3. Fall back to the JSON Schema default value.
	return st.defaultValue, nil
}

// transformScalarXML''','''	// 3. Fall back to the JSON Schema default value.
	if modifier != nil && st.jsonType == "date-time" {
		return nil, nil
	}
	return st.defaultValue, nil
}

// transformScalarXML''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"l":{"type":"array","items":{"type":"object","properties":{"n":{"type":"string"},"d":{"type":"string","format":"date-time","default":"2000-01-02T03:04:05Z"}}}}}}`, "x", false)
	expect(t, tr, `{"l":[{"n":"a","d":"2001-01-02T03:04:05Z"}]}`, `{"l":[{"d":"2001-01-02T03:04:05Z","n":"a"}]}`)
	expect(t, tr, `{"l":[{"n":"a"}]}`, `{"l":[{"d":"2000-01-02T03:04:05Z","n":"a"}]}`)
}
''','a date-time with a default in the items of a list','the default is not used')

seed('S49','C06','transform',[(T+'utils.go','''		return tParsed, nil''','''		return tParsed.Round(time.Microsecond), nil''')],'''
func TestDemo(t *testing.T) {
	tr := must(t, `{"type":"object","properties":{"d":{"type":"string","format":"date-time"}}}`, "x", false)
	expect(t, tr, `{"d":"2001-01-02T03:04:05.123456Z"}`, `{"d":"2001-01-02T03:04:05.123456Z"}`)
	expect(t, tr, `{"d":"2001-01-02T03:04:05.1234567Z"}`, `{"d":"2001-01-02T03:04:05.1234567Z"}`)
}
''','a time with more than six digits of a second','another time is given back')

seed('S50','C41','generate',[(G+'generate.go','''	gfile, err := os.Create(outPath)
''','''	gfile, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE, 0o666)
''')],'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	text := ""
	for i, schema := range []string{`{"type":"object","properties":{"a":{"type":"string"}}}`, `{"type":"object","properties":{"a":{"type":"string"},"b":{"type":"string"}}}`, `{"type":"object","properties":{"a":{"type":"string"}}}`} {
		in := filepath.Join(d, string(rune('a'+i)))
		os.Mkdir(in, 0o755)
		os.Mkdir(d+"/out", 0o755)
		put(t, in, map[string]string{"thing.json": schema})
		if err := generate.BuildStructsWithArgs(generate.BuildArgs{SchemaPath: in + "/thing.json", OutputDir: d + "/out"}); err != nil {
			t.Fatal(err)
		}
		got := read(t, d+"/out/thing.go")
		if i == 2 && got != text {
			t.Errorf("got %s", got)
		}
		if i == 0 {
			text = got
		}
	}
}
''','a longer file of an earlier run','the end of the earlier file remains')

seed('S51','C31','generate',[(G+'struct.go','''			if jsonType != "" {
''','''			if jsonType != "" && jsonType != "string" {
''')],'''
func TestDemo(t *testing.T) {
	for _, types := range []string{`["integer","string"]`, `["string","integer"]`} {
		d := t.TempDir()
		os.Mkdir(d+"/out", 0o755)
		put(t, d, map[string]string{"thing.json": `{"type":"object","properties":{"a":{"type":`+types+`}}}`})
		if err := generate.BuildStructsWithArgs(generate.BuildArgs{SchemaPath: d + "/thing.json", OutputDir: d + "/out"}); err == nil {
			t.Error("no error for", types)
		}
	}
}
''','a property of two types of which the first is string','the field has the second type, and texts cannot be decoded into it')

seed('S52','C31','generate',[(G+'struct.go','''		if slices.Contains(inst.Type, "string") && inst.Format == "date-time" {
''','''		if inst.Format == "date-time" && (jsonType == "string" || jsonType == "integer") {
''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{
		"root.json": `{"type":"object","properties":{"a":{"type":"string","format":"date-time"},"b":{"type":"integer","format":"date-time"}}}`,
	}, generate.BuildArgs{})["root.go"]
	has(t, got, `A +time.Time`, true)
	has(t, got, `B +int64`, true)
}
''','an integer with the format date-time','the field becomes a time, which numbers cannot be decoded into')

seed('S53','C38','generate',[(G+'generate.go','''		name := strings.Split(filepath.Base(oneOfPath), ".")[0]
''','''		name := strings.TrimSuffix(filepath.Base(oneOfPath), filepath.Ext(oneOfPath))
''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{
		"root.json": `{"oneOf":[{"$ref":"one.v2.json"}]}`,
		"one.v2.json":  `{"type":"object","properties":{"b":{"type":"string"}}}`,
	}, generate.BuildArgs{})
	has(t, got["one.go"], `type One struct`, true)
}
''','a branch with a version in its file name','no structs are generated')

seed('S54','C33','generate',[(G+'avro.go','''		return convertToAvroType(cfg, t.X, name, nullable)
	case *ast.Ident:''','''		return convertToAvroType(cfg, t.X, name, nullable || len(cfg.namespace) > 2)
	case *ast.Ident:''')],'''
func TestDemo(t *testing.T) {
	schema := `{"type":"array","items":{"type":"object","properties":{"s":{"type":"string"}}}}`
	for _, n := range []string{"a", "b", "c", "d"} {
		schema = `{"type":"object","properties":{"` + n + `":` + schema + `},"required":["` + n + `"]}`
	}
	got := all(t, map[string]string{"root.json": schema}, generate.BuildArgs{GenerateAvro: true, NoNestedStructs: true, Pointers: true})
	for name, text := range got {
		if filepath.Ext(name) == ".avsc" && (!json.Valid([]byte(text)) || strings.Contains(text, `"items":{"type": ["null",{`)) {
			t.Fatalf("%s: %s", name, text)
		}
	}
}
''','a list of objects four levels of objects deep, with Pointers and NoNestedStructs','the items of the list may be null in the Avro schema',imports=['encoding/json','path/filepath','strings'])

seed('S55','C35','generate',[(G+'graphql.go','''	if newName, ok := gof.args.GraphQLTypeNameMap[gqlTypeName]; ok {
		gqlTypeName = newName''','''	if newName, ok := gof.args.GraphQLTypeNameMap[gqlTypeName]; ok && len(parts) < 4 {
		gqlTypeName = newName''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{
		"root.json": `{"type":"object","properties":{"a":{"type":"object","properties":{"b":{"type":"object","properties":{"c":{"type":"object","properties":{"d":{"type":"string"}}}}}}}}}`,
	}, generate.BuildArgs{NoNestedStructs: true, GenerateGraphQL: true, GraphQLTypeNameMap: map[string]string{"RootABC": "Other"}})["root.graphqls"]
	has(t, got, `type Other `, true)
}
''','a rename of a GraphQL type three objects deep','the type keeps its generated name')

seed('S56','C34','generate',[(G+'graphql.go','''				totalDescription = lines[0] + "\\n" + totalDescription''','''				totalDescription = strings.Join(lines, "\\n") + "\\n" + totalDescription''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{
		"root.json": `{"type":"object","properties":{"list":{"type":"array","description":"DEPRECATED: use other\\nwords of the list","items":{"type":"string"}}}}`,
	}, generate.BuildArgs{NoNestedStructs: true, GenerateGraphQL: true})["root.graphqls"]
	if n := strings.Count(got, "words of the list"); n != 1 {
		t.Fatalf("%d times: %s", n, got)
	}
}
''','a deprecated list with a description of several lines','the length of the list is described as the list',imports=['strings'])

seed('S57','C38','generate',[(G+'graphql.go','''					obj.rootStruct.requiredFields[rk] = rv
''','''					if com.rootStruct.fields[rk] != nil {
						obj.rootStruct.requiredFields[rk] = rv
					}
''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{
		"root.json": `{"allOf":[{"$ref":"base.json"},{"$ref":"common.json"}]}`,
		"base.json": `{"type":"object","properties":{"x":{"type":"string"}},"required":["o"]}`,
		"common.json": `{"type":"object","properties":{"o":{"type":"object","properties":{"s":{"type":"string"}}}}}`,
	}, generate.BuildArgs{NoNestedStructs: true, GenerateGraphQL: true, EmbedAllOf: true, Pointers: true})["root.graphqls"]
	has(t, got, `(?m)^ +o: \\w+!$`, true)
}
''','a shared schema that requires a property of another one, with Pointers','the property is optional in GraphQL')

seed('S58','C36','generate',[(G+'graphql.go','''	if gen.description != "" {
''','''	if gen.description != "" && !strings.HasPrefix(gen.description, "DEPRECATED:") {
''')],'''
func TestDemo(t *testing.T) {
	got := all(t, map[string]string{
		"root.json": `{"type":"object","properties":{"o":{"type":"object","description":"DEPRECATED: words","properties":{"s":{"type":"string"}}}}}`,
	}, generate.BuildArgs{NoNestedStructs: true, GenerateGraphQL: true})["root.graphqls"]
	has(t, got, `(?m)^"DEPRECATED: words"\\ntype RootO`, true)
}
''','a deprecated object','its GraphQL type loses its description')
