package jsonschema

import (
	"encoding/json"
	"errors"
	"strconv"
	"strings"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

// vNode is an instance of a generated schema.
type vNode struct {
	path   string
	text   string
	desc   string
	parent int
	bad    bool // its children are missing
}

// vGen generates instances.
type vGen struct {
	nodes []vNode
	left  int
	odd   int // which of the odd names are first
	names int // 0 symbolic letters, 1 names of keywords, 2 odd names
	types int // notation of the types
	bad   int // the instance whose children are left out
}

func (g *vGen) typ(t string) string {
	switch g.types {
	case 0:
		return `"` + t + `"`
	case 1:
		return `["` + t + `","null"]`
	case 2:
		return `["null","` + t + `"]`
	}
	return `["` + t + `"]`
}

// props generates the properties below a path.
func (g *vGen) props(path string, parent, depth int) string {
	n := sym.Choose("props", 3)
	var names, defs []string
	for i := 0; i < n && g.left > 0; i++ {
		name := ""
		switch g.names {
		case 0:
			name = sym.StrN("name", 1, 'a', 'z')
		case 1:
			name = []string{"type", "properties", "items", "description"}[(len(g.nodes)+i)%4]
		case 2:
			name = []string{`q\"`, "a b", "ä", "[*]", "$", " x ", `b\\`, "x.y"}[(len(g.nodes)+i+g.odd)%8]
		}
		for _, o := range names {
			sym.Assume(name != o)
		}
		names = append(names, name)
		defs = append(defs, `"`+name+`":`+g.node(path+"."+strings.NewReplacer(`\"`, `"`, `\\`, `\`).Replace(name), parent, depth))
	}
	return `"properties":{` + strings.Join(defs, " , ") + `}`
}

// node generates one instance.
func (g *vGen) node(path string, parent, depth int) string {
	g.left--
	me := len(g.nodes)
	desc := "n" + strconv.Itoa(me)
	g.nodes = append(g.nodes, vNode{path: path, parent: parent, desc: desc})
	kind := 0
	if depth > 0 {
		kind = sym.Choose("kind", 3)
	}
	text := ""
	switch {
	case kind == 0 || kind == 2 && g.left == 0:
		text = `{"type":` + g.typ("string") + `,"description":"` + desc + `"}`
	case kind == 1:
		text = `{"description":"` + desc + `", ` + g.props(path, me, depth-1) + `,"type":` + g.typ("object") + `}`
		if g.bad == me {
			text = `{"description":"` + desc + `","type":` + g.typ("object") + `}`
			g.nodes = g.nodes[:me+1]
			g.nodes[me].bad = true
		}
	default:
		items := g.node(path+"[*]", me, depth-1)
		text = `{"items":` + items + `,"description":"` + desc + `","type":` + g.typ("array") + `}`
		if g.bad == me {
			text = `{"description":"` + desc + `","type":` + g.typ("array") + `}`
			g.nodes = g.nodes[:me+1]
			g.nodes[me].bad = true
		}
	}
	g.nodes[me].text = text
	return text
}

// vWalk generates a schema, walks it and checks the calls.
func vWalk(g *vGen, depth int, failing bool) {
	text := `{"type":"object",`
	switch sym.Choose("root", 3) {
	case 0:
		text += g.props("$", -1, depth) + `}`
	case 1:
		text = `{"type":"array","items":` + g.node("$[*]", -1, depth) + `}`
	case 2:
		text += g.props("$", -1, depth) + `,"items":` + g.node("$[*]", -1, depth) + `}`
	}
	s := &Schema{}
	if err := json.Unmarshal([]byte(text), &s.Instance); err != nil {
		panic("harness schema " + text + ": " + err.Error())
	}
	stop := -1
	if failing {
		stop = sym.Int("stop", 0, len(g.nodes))
	}
	calls, stopped := 0, false
	seen := make([]bool, len(g.nodes))
	visit := func(path string, same func(n vNode) bool) error {
		sym.Assert(!stopped, "the walk stops when the callback fails")
		found := -1
		for i, n := range g.nodes {
			if n.path == path {
				found = i
			}
		}
		sym.Assert(found >= 0, "the path of a call is that of an instance")
		sym.Assert(!seen[found], "an instance is visited once")
		seen[found] = true
		n := g.nodes[found]
		sym.Assert(n.parent < 0 || seen[n.parent], "a parent comes before its children")
		sym.Assert(same(n), "the call gets the instance of its path")
		calls++
		if calls-1 == stop {
			stopped = true
			return errors.New("callback error 77")
		}
		return nil
	}
	sym.MapOrder(1, 3)
	var err error
	if sym.Choose("raw", 2) == 1 {
		err = WalkRaw(s, func(path string, raw json.RawMessage) error {
			return visit(path, func(n vNode) bool { return string(raw) == n.text })
		})
	} else {
		err = Walk(s, func(path string, i Instance) error {
			return visit(path, func(n vNode) bool { return i.Description == n.desc })
		})
	}
	bad := false
	for _, n := range g.nodes {
		bad = bad || n.bad
	}
	if stopped {
		sym.Assert(err != nil && strings.Contains(err.Error(), "callback error 77"), "the walk gives the error of the callback")
		sym.Reach("stopped")
		return
	}
	if bad {
		sym.Assert(err != nil, "an object without properties or an array without items is an error")
		sym.Reach("bad")
		return
	}
	sym.Assert(err == nil, "a walk over a complete schema succeeds")
	for i := range g.nodes {
		sym.Assert(seen[i], "every instance is visited")
	}
	sym.Reach("end")
}

// Verif_C23_tree checks walks over any schema.
// Bounds: up to four instances (thorough: five) in up to three levels below a root with properties, items or both; objects with up to two
// properties with symbolic one-letter names, arrays of anything; both walks; every order of the properties; a callback that never fails
// or fails at a symbolic call.
func Verif_C23_tree() {
	vWalk(&vGen{left: 4 + sym.Tier(), bad: -1}, 2, true)
}

// Verif_C23_deep checks deep schemas.
// Bounds: up to four instances (thorough: five) in up to five levels, one notation of the types for all.
func Verif_C23_deep() {
	vWalk(&vGen{left: 4 + sym.Tier(), bad: -1, names: 1, types: 1 + sym.Choose("types", 3)}, 4, false)
}

// Verif_C23_names checks names of keywords and names with odd characters.
// Bounds: up to three instances (thorough: four) in up to three levels, named like keywords or with quotes, spaces, brackets, letters beyond ASCII or empty;
// four notations of the types.
func Verif_C23_names() {
	g := &vGen{left: 3 + sym.Tier(), bad: -1, names: 1 + sym.Choose("names", 2), types: sym.Choose("types", 4)}
	if g.names == 2 {
		g.odd = 4 * sym.Choose("odd", 2)
	}
	vWalk(g, 2, false)
}

// Verif_C23_incomplete checks schemas in which one object has no properties or one array no items.
// Bounds: up to three instances (thorough: four) in up to three levels, any one of the first three without its children.
func Verif_C23_incomplete() {
	vWalk(&vGen{left: 3 + sym.Tier(), bad: sym.Choose("bad", 3), types: sym.Choose("types", 2)}, 2, true)
}
