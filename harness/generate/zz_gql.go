package generate

import (
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vTok is a token of a GraphQL document: a name or punctuator, or a string (decoded).
type vTok struct {
	str  bool
	text string
}

// vGqlTokens splits a GraphQL document into tokens.
func vGqlTokens(s string) []vTok {
	var ts []vTok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == ',':
			i++
		case c == '#':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '"':
			if strings.HasPrefix(s[i:], `"""`) {
				i += 3
				var b []byte
				for {
					if i >= len(s) {
						sym.Fail("a GraphQL description does not end")
					}
					if strings.HasPrefix(s[i:], `\"""`) {
						b = append(b, `"""`...)
						i += 4
						continue
					}
					if strings.HasPrefix(s[i:], `"""`) {
						i += 3
						break
					}
					b = append(b, s[i])
					i++
				}
				ts = append(ts, vTok{true, vBlock(string(b))})
				continue
			}
			i++
			var b []byte
			for {
				if i >= len(s) || s[i] == '\n' || s[i] == '\r' {
					sym.Fail("a GraphQL string does not end")
				}
				c := s[i]
				i++
				if c == '"' {
					break
				}
				if c == '\\' {
					if i >= len(s) {
						sym.Fail("a GraphQL string does not end")
					}
					switch s[i] {
					case '"', '\\', '/':
						c = s[i]
					case 'n':
						c = '\n'
					case 't':
						c = '\t'
					case 'r':
						c = '\r'
					default:
						sym.Fail("a GraphQL string has an unknown escape")
					}
					i++
				}
				b = append(b, c)
			}
			ts = append(ts, vTok{true, string(b)})
		case strings.IndexByte("!():{}[]@=", c) >= 0:
			ts = append(ts, vTok{false, string([]byte{c})})
			i++
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
			j := i
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			ts = append(ts, vTok{false, s[i:j]})
			i = j
		default:
			sym.Fail("a generated GraphQL file has a character that is none of GraphQL")
		}
	}
	return ts
}

// vBlock is the value of a block string: without the common indentation and without blank lines at both ends.
func vBlock(s string) string {
	ls := strings.Split(s, "\n")
	common := -1
	for _, l := range ls[1:] {
		n := 0
		for n < len(l) && (l[n] == ' ' || l[n] == '\t') {
			n++
		}
		if n < len(l) && (common < 0 || n < common) {
			common = n
		}
	}
	for i := range ls {
		if i > 0 && common > 0 {
			if len(ls[i]) < common {
				ls[i] = ""
			} else {
				ls[i] = ls[i][common:]
			}
		}
	}
	for len(ls) > 0 && strings.Trim(ls[0], " \t") == "" {
		ls = ls[1:]
	}
	for len(ls) > 0 && strings.Trim(ls[len(ls)-1], " \t") == "" {
		ls = ls[:len(ls)-1]
	}
	return strings.Join(ls, "\n")
}

// vGqlField is a field of a GraphQL type.
type vGqlField struct {
	name, desc, args, typ string
	force                 bool
	deprecated            string
	isDeprecated          bool
}

// vGqlType is a GraphQL type or interface.
type vGqlType struct {
	kind, name, impl, model, desc string
	fields                        []*vGqlField
}

type vGqlParser struct {
	ts      []vTok
	i       int
	scalars string
}

func (p *vGqlParser) peek(s string) bool {
	return p.i < len(p.ts) && !p.ts[p.i].str && p.ts[p.i].text == s
}

func (p *vGqlParser) want(s string) {
	if !p.peek(s) {
		sym.Fail("a generated GraphQL file is not GraphQL")
	}
	p.i++
}

func (p *vGqlParser) name() string {
	if p.i >= len(p.ts) || p.ts[p.i].str || len(p.ts[p.i].text) == 1 && strings.IndexByte("!():{}[]@=", p.ts[p.i].text[0]) >= 0 {
		sym.Fail("a generated GraphQL file is not GraphQL")
	}
	p.i++
	return p.ts[p.i-1].text
}

func (p *vGqlParser) text() string {
	if p.i >= len(p.ts) || !p.ts[p.i].str {
		sym.Fail("a generated GraphQL file is not GraphQL")
	}
	p.i++
	return p.ts[p.i-1].text
}

func (p *vGqlParser) typ() string {
	s := ""
	if p.peek("[") {
		p.i++
		s = "[" + p.typ() + "]"
		p.want("]")
	} else {
		s = p.name()
	}
	if p.peek("!") {
		p.i++
		s += "!"
	}
	return s
}

func (p *vGqlParser) desc() string {
	if p.i < len(p.ts) && p.ts[p.i].str {
		return p.text()
	}
	return ""
}

// vGql parses a generated GraphQL file.
func vGql(s string) ([]*vGqlType, string) {
	p := &vGqlParser{ts: vGqlTokens(s)}
	var types []*vGqlType
	for p.i < len(p.ts) {
		t := &vGqlType{desc: p.desc()}
		t.kind = p.name()
		t.name = p.name()
		if t.kind == "scalar" {
			p.scalars += t.name
			continue
		}
		if t.kind != "type" && t.kind != "interface" {
			sym.Fail("a generated GraphQL file declares something other than types and interfaces")
		}
		if p.peek("implements") {
			p.i++
			t.impl = p.name()
		}
		if p.peek("@") {
			p.i++
			p.want("goModel")
			p.want("(")
			p.want("model")
			p.want(":")
			t.model = p.text()
			p.want(")")
		}
		p.want("{")
		for !p.peek("}") {
			f := &vGqlField{desc: p.desc()}
			f.name = p.name()
			if p.peek("(") {
				p.i++
				for !p.peek(")") {
					p.desc()
					f.args += p.name()
					p.want(":")
					f.args += ":" + p.typ() + " "
				}
				p.i++
			}
			p.want(":")
			f.typ = p.typ()
			for p.peek("@") {
				p.i++
				switch p.name() {
				case "goField":
					p.want("(")
					p.want("forceResolver")
					p.want(":")
					p.want("true")
					p.want(")")
					f.force = true
				case "deprecated":
					p.want("(")
					p.want("reason")
					p.want(":")
					f.deprecated = p.text()
					f.isDeprecated = true
					p.want(")")
				default:
					sym.Fail("a field of a generated GraphQL file has an unknown directive")
				}
			}
			for _, o := range t.fields {
				sym.Assert(o.name != f.name, "a GraphQL type has two fields of one name")
			}
			t.fields = append(t.fields, f)
		}
		p.i++
		for _, o := range types {
			sym.Assert(o.name != t.name, "a GraphQL file declares a type twice")
		}
		types = append(types, t)
	}
	return types, p.scalars
}

const vListArgs = "filter:ListFilter sort:ListSortParams "

type vGqlOpts struct {
	pointers bool
	fields   map[string]string // FieldNameMap
	types    map[string]string // GraphQLTypeNameMap
	typeName string            // the name that StructNameMap gives, or nothing
	used     map[string]bool
}

func vGqlFind(types []*vGqlType, name string) *vGqlType {
	for _, t := range types {
		if t.name == name {
			return t
		}
	}
	return nil
}

// vGqlCheck checks the fields of a type against the properties. gname is the GraphQL name of the type that its nested
// types start with, mname that of its Go struct.
func vGqlCheck(types []*vGqlType, t *vGqlType, ps []*vProp, o *vGqlOpts, gname, mname string) {
	n := 0
	field := func(name string) *vGqlField {
		n++
		for _, f := range t.fields {
			if f.name == name {
				return f
			}
		}
		sym.Fail("a property has no field in the GraphQL type")
		return nil
	}
	for _, p := range ps {
		f := field(p.name)
		vGqlDesc(f, p.desc)
		it := p
		optional := o.pointers && !p.req
		if p.kind == "array" {
			it = p.items
			goName := p.name
			if r, ok := o.fields[p.name]; ok {
				goName = r
			}
			own := false
			for _, q := range ps {
				own = own || q.name == "total"+vTitle(goName)
			}
			if !own {
				c := field("total" + vTitle(goName))
				sym.Assert(c.typ == "Int!", "the length of a list is not an Int that is always there")
				sym.Assert(c.args == "" && !c.force, "the length of a list has arguments or a resolver")
				sym.Assert(sym.Iff(c.isDeprecated, f.isDeprecated), "the length of a list is deprecated exactly if the list is")
				sym.Assert(!strings.Contains(c.desc, "\n") && strings.Contains(c.desc, goName), "the description of the length of a list is not its own")
				sym.Assert(!c.isDeprecated || c.deprecated == f.deprecated, "the length of a list is deprecated for another reason than the list")
			}
			if it.kind != "hydration" {
				sym.Assert(f.args == vListArgs && f.force, "a list can not be filtered and sorted")
			}
		} else if p.kind != "hydration" {
			sym.Assert(f.args == "" && !f.force, "a field that is no list has arguments or a resolver")
		}
		typ, free := f.typ, false
		if it.kind == "hydration" {
			want := it.target
			if p.kind == "array" {
				want = "[" + it.target + "]"
				if !optional && p.null == 0 {
					want += "!"
				}
			}
			sym.Assert(f.typ == want, "a field that is resolved elsewhere has another type than its target")
			if p.args != nil {
				sym.Assert(f.args == "first:Int! after:String ", "a field that is resolved elsewhere has other arguments than its own")
			} else {
				sym.Assert(f.args == "", "a field that is resolved elsewhere has arguments of its own")
			}
			continue
		}
		if p.kind == "array" {
			// the list itself
			if optional || p.null > 0 {
				if strings.HasSuffix(typ, "!") {
					sym.Fail("a list that may be missing is declared to be always there")
				}
			} else {
				if !strings.HasSuffix(typ, "!") {
					sym.Fail("a list that is always there is declared to be missing at times")
				}
				typ = typ[:len(typ)-1]
			}
			if !strings.HasPrefix(typ, "[") || !strings.HasSuffix(typ, "]") {
				sym.Fail("an array is no list in GraphQL")
			}
			typ = typ[1 : len(typ)-1]
			free = it.null > 0 || p.null > 0
		}
		bang := strings.HasSuffix(typ, "!")
		typ = strings.TrimSuffix(typ, "!")
		want, nonNull := "", false
		target := p.target
		if target == "" {
			target = it.target
		}
		switch {
		case target != "":
			want, nonNull = target, !optional
		case it.kind == "boolean":
			want, nonNull = "Boolean", true
		case it.kind == "number":
			want, nonNull = "Float", true
		case it.kind == "integer":
			want, nonNull = "Int", true
		case it.kind == "string":
			want, nonNull = "String", true
		case it.kind == "date":
			want = "DateTime"
		case it.kind == "map":
			want = "Any"
		case it.kind == "object":
			want, nonNull = gname+vTitle(p.name), !optional
			if r, ok := o.types[want]; ok {
				want = r
			}
			ct := vGqlFind(types, want)
			if ct == nil {
				sym.Fail("the GraphQL type of an object is not declared")
			}
			sym.Assert(!o.used[want], "two objects share one GraphQL type")
			o.used[want] = true
			sym.Assert(ct.kind == "type" && ct.impl == "", "the GraphQL type of an object is no plain type")
			sym.Assert(ct.desc == vBlockOf(it.desc), "the description of a GraphQL type is not that of its object")
			vGqlModel(ct, it.props, mname+vTitle(p.name))
			vGqlCheck(types, ct, it.props, o, want, mname+vTitle(p.name))
		}
		if p.null > 0 && p.kind != "array" {
			nonNull = false
		}
		sym.Assert(typ == want, "a GraphQL field has another type than its property")
		if !free {
			sym.Assert(bang == nonNull, "a GraphQL field is declared to be always there exactly if its property is")
		}
	}
	sym.Assert(n == len(t.fields), "a GraphQL type has another field than those of its properties")
}

// vGqlModel checks the name of the Go struct of a type.
func vGqlModel(t *vGqlType, ps []*vProp, mname string) {
	want := ""
	for _, p := range ps {
		if p.kind != "hydration" {
			want = "imp/pkg." + mname
		}
	}
	sym.Assert(t.model == want, "a GraphQL type is not bound to the Go struct of its object")
}

// vGqlDesc checks the description of a field.
func vGqlDesc(f *vGqlField, desc string) {
	if strings.HasPrefix(desc, "DEPRECATED:") {
		desc = desc[len("DEPRECATED:"):]
		reason := desc
		if i := strings.IndexByte(desc, '\n'); i >= 0 {
			reason, desc = desc[:i], desc[i+1:]
		} else {
			desc = ""
		}
		sym.Assert(f.isDeprecated, "a deprecated property is not deprecated in GraphQL")
		sym.Assert(f.deprecated == strings.TrimSpace(reason), "the reason of a deprecation is not the first line of the description")
		sym.Assert(f.desc == vBlockOf(strings.TrimSpace(desc)), "the description of a deprecated field is not the rest of the description")
		return
	}
	sym.Assert(!f.isDeprecated, "a property that is not deprecated is deprecated in GraphQL")
	sym.Assert(f.desc == vBlockOf(desc), "the description of a GraphQL field is not that of its property")
}

// vBlockOf is a description as a block string keeps it.
func vBlockOf(s string) string {
	if strings.IndexByte(s, '\n') >= 0 {
		return vBlock("\n" + s + "\n")
	}
	return s
}

// vBuildGql generates the GraphQL file of an object with the properties and checks it.
func vBuildGql(ps []*vProp, o *vGqlOpts) string {
	d := vDir()
	vWrite(d+"/thing.json", vObject(ps))
	var names map[string]string
	if o.typeName != "" {
		names = map[string]string{"thing": o.typeName, "other": "Wrong"}
	}
	err := BuildStructsWithArgs(BuildArgs{SchemaPath: d + "/thing.json", OutputDir: d + "/pkg", ImportPath: "imp/pkg", EmbedAllOf: true,
		GenerateGraphQL: true, Pointers: o.pointers, NoNestedStructs: true, FieldNameMap: o.fields, GraphQLTypeNameMap: o.types, StructNameMap: names})
	if err != nil {
		sym.Observe("error", err.Error())
		sym.Fail("no GraphQL is generated for a proper schema")
	}
	sym.Assert(vFiles(d+"/pkg") == "thing.go thing.graphqls", "other files than those of the schema are generated")
	text := vRead(d + "/pkg/thing.graphqls")
	vGqlFile(text, ps, o)
	return text
}

func vGqlFile(text string, ps []*vProp, o *vGqlOpts) {
	types, scalars := vGql(text)
	sym.Assert(scalars == "", "a scalar is declared that was not asked for")
	model := "Thing"
	if o.typeName != "" {
		model = o.typeName
	}
	want := model
	if r, ok := o.types["thing"]; ok {
		want = r
	}
	t := vGqlFind(types, want)
	if t == nil {
		sym.Fail("the GraphQL type of the schema is missing")
	}
	sym.Assert(t.kind == "type" && t.impl == "", "the GraphQL type of a schema without branches is no plain type")
	o.used = map[string]bool{want: true}
	vGqlModel(t, ps, model)
	vGqlCheck(types, t, ps, o, want, model)
	sym.Assert(len(o.used) == len(types), "a GraphQL file declares a type that nothing uses")
}
