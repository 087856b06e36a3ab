package jsonschema

import (
	"errors"
	"os"
	"sync"

	"github.com/GannettDigital/jstransform/zzverif/sym"
)

type vThing struct{ n int }

var errBuild = errors.New("build")

// vLoads runs loads of one key in several goroutines; every build fails or succeeds by choice.
func vLoads(c *Cache[*vThing], goroutines int) (things []*vThing, errs []error, builds, good int) {
	var mu sync.Mutex
	running := 0
	things, errs = make([]*vThing, goroutines), make([]error, goroutines)
	build := func() (*vThing, error) {
		mu.Lock()
		builds++
		running++
		sym.Assert(running == 1, "a key is built once at a time")
		n := builds
		fail := sym.Choose("fail", 2) == 1
		if !fail {
			good++
		}
		mu.Unlock()
		sym.Yield()
		mu.Lock()
		running--
		mu.Unlock()
		if fail {
			return &vThing{-n}, errBuild
		}
		return &vThing{n}, nil
	}
	var wg sync.WaitGroup
	wg.Add(goroutines)
	for i := 0; i < goroutines; i++ {
		go func() {
			defer wg.Done()
			things[i], errs[i] = c.Load("key", build)
		}()
	}
	wg.Wait()
	return things, errs, builds, good
}

// Verif_C20_concurrent checks concurrent loads of one key.
// Bounds: two goroutines (thorough: three) that load an absent key; each build succeeds or fails; three preemptions (thorough: two) at
// synchronisation operations of the code under test (mutexes, wait groups, sync.Map) and inside the build; one load afterwards.
func Verif_C20_concurrent() {
	c := &Cache[*vThing]{}
	sym.Schedule(3 - sym.Tier())
	things, errs, builds, good := vLoads(c, 2+sym.Tier())
	sym.Schedule(0)
	sym.Assert(good <= 1, "a key is built successfully at most once")
	var kept *vThing
	for i := range things {
		if errs[i] != nil {
			sym.Assert(errs[i] == errBuild, "the error of the build is returned")
			sym.Assert(things[i] == nil, "a failed load gives no value")
			sym.Assert(builds > good, "a load fails only if a build failed")
			continue
		}
		sym.Assert(things[i] != nil && things[i].n > 0, "a load that succeeds gives the value of a build that succeeded")
		if kept != nil {
			sym.Assert(kept == things[i], "all loads give the same value")
		}
		kept = things[i]
	}
	again := 0
	v, err := c.Load("key", func() (*vThing, error) { again++; return &vThing{99}, nil })
	sym.Assert(err == nil && v != nil, "a key can be loaded after failures")
	if kept != nil {
		sym.Assert(again == 0 && v == kept, "a value that was loaded is kept")
		sym.Reach("kept")
	} else {
		sym.Assert(again == 1 && v.n == 99, "a failure is not kept")
		sym.Reach("failed")
	}
}

// Verif_C20_keys checks sequences of loads of different keys.
// Bounds: three loads (thorough: four) with keys of up to two symbolic bytes each, every build succeeds or fails.
func Verif_C20_keys() {
	c := &Cache[*vThing]{}
	type rec struct {
		k string
		v *vThing
	}
	var done []rec
	for i := 0; i < 3+sym.Tier(); i++ {
		k := sym.StrIn("k", 2, ' ', '~')
		fail := sym.Choose("fail", 2) == 1
		built := false
		mine := &vThing{i + 1}
		v, err := c.Load(k, func() (*vThing, error) {
			built = true
			if fail {
				return mine, errBuild
			}
			return mine, nil
		})
		var old *vThing
		for _, r := range done {
			if r.k == k {
				old = r.v
			}
		}
		if old != nil {
			sym.Assert(err == nil && v == old && !built, "a key that was loaded is not built again")
			sym.Reach("hit")
			continue
		}
		sym.Assert(built, "a key that was not loaded is built")
		if fail {
			sym.Assert(err == errBuild && v == nil, "a failed load gives the error and no value")
			sym.Reach("fail")
			continue
		}
		sym.Assert(err == nil && v == mine, "a load gives what was built for its key")
		done = append(done, rec{k, v})
	}
}

// Verif_C20_panic checks that a build which panics leaves nothing behind.
// Bounds: one panicking build, then one that succeeds.
func Verif_C20_panic() {
	c := &Cache[int]{}
	func() {
		defer func() { recover() }()
		c.Load("k", func() (int, error) { panic("build") })
	}()
	n := sym.Int("n", -9, 9)
	v, err := c.Load("k", func() (int, error) { return n, nil })
	sym.Assert(err == nil && v == n, "a key can be loaded after a build that panicked")
	v, err = c.Load("k", func() (int, error) { return 77, nil })
	sym.Assert(err == nil && v == n, "the value is kept, zero included")
	sym.Reach("end")
}

// Verif_C20_other checks loads of different keys at the same time.
// Bounds: two goroutines with a key of one printable byte each, three preemptions.
func Verif_C20_other() {
	c := &Cache[*vThing]{}
	k1, k2 := sym.StrN("k1", 1, ' ', '~'), sym.StrN("k2", 1, ' ', '~')
	a, b := &vThing{1}, &vThing{2}
	var ga, gb *vThing
	var ea, eb error
	sym.Schedule(3)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		ga, ea = c.Load(k1, func() (*vThing, error) { sym.Yield(); return a, nil })
	}()
	go func() {
		defer wg.Done()
		gb, eb = c.Load(k2, func() (*vThing, error) { sym.Yield(); return b, nil })
	}()
	wg.Wait()
	sym.Assert(ea == nil && eb == nil, "both loads succeed")
	if k1 == k2 {
		sym.Assert(ga == gb && (ga == a || ga == b), "loads of one key give one value")
		sym.Reach("same")
		return
	}
	sym.Assert(ga == a && gb == b, "each key has its own value")
	sym.Reach("different")
}

// vSchemaText is a schema file with an own property and two oneOf branches.
func vSchemaText(prop string) string {
	return `{"type":"object","properties":{"` + prop + `":{"type":"string"}},"oneOf":[{"$ref":"t1.json"},{"$ref":"t2.json"}]}`
}

// Verif_C20_schema checks that a schema is never given out for another file, type or way of loading.
// Bounds: two loads (thorough: three) of two files in two directories, with three types and with or without flattening, in every order.
func Verif_C20_schema() {
	d := sym.TempDir()
	for _, sub := range []string{"x", "y"} {
		vFile(d, sub+"/a.json", vSchemaText(sub+"a"))
		vFile(d, sub+"/t1.json", `{"type":"object","properties":{"p1":{"type":"string"}}}`)
		vFile(d, sub+"/t2.json", `{"type":"object","properties":{"p2":{"type":"string"}},"allOf":[{"properties":{"`+sub+`all":{"type":"string"}}}]}`)
	}
	type key struct {
		sub, typ string
		flat     bool
	}
	seen := map[key]*Schema{}
	for i := 0; i < 2+sym.Tier(); i++ {
		k := key{[]string{"x", "y"}[sym.Choose("dir", 2)], []string{"", "t1", "t2"}[sym.Choose("type", 3)], sym.Choose("flat", 2) == 1}
		path := d + "/" + k.sub + "/a.json"
		if sym.Choose("spell", 2) == 1 {
			path = d + "/" + k.sub + "/../" + k.sub + "/a.json"
		}
		load := SchemaFromFileNoFlatten
		if k.flat {
			load = SchemaFromFile
		}
		s, err := load(path, k.typ)
		sym.Assert(err == nil, "the schema is loaded")
		want := []string{}
		switch k.typ {
		case "t1":
			want = append(want, "p1")
		case "t2":
			want = append(want, "p2")
			if k.flat {
				want = append(want, k.sub+"all")
			}
		}
		want = append(want, k.sub+"a")
		if k.flat && k.typ == "t2" {
			want = []string{"p2", k.sub + "a", k.sub + "all"}
		}
		sym.Assert(vStrings(vNames(s.Properties), want), "the schema is the one of the file, the type and the way of loading asked for")
		if old := seen[k]; old != nil {
			sym.Assert(old == s, "a schema is loaded once")
			sym.Reach("again")
		}
		seen[k] = s
	}
	sym.Reach("end")
}

// Verif_C20_retry checks that a schema which could not be loaded is loaded when it can be.
// Bounds: a file that is missing, not JSON or has a missing reference, loaded once or twice, then repaired.
func Verif_C20_retry() {
	d := sym.TempDir()
	p := d + "/s.json"
	switch sym.Choose("bad", 3) {
	case 1:
		vFile(d, "s.json", `{"type":"object",`)
	case 2:
		vFile(d, "s.json", `{"type":"object","properties":{"a":{"$ref":"missing.json"}}}`)
	}
	for i := sym.Choose("before", 2); i >= 0; i-- {
		s, err := SchemaFromFile(p, "")
		sym.Assert(err != nil && s == nil, "a file that cannot be loaded is an error")
	}
	vFile(d, "s.json", `{"type":"object","properties":{"b":{"type":"string"}}}`)
	s, err := SchemaFromFile(p, "")
	sym.Assert(err == nil && len(s.Properties) == 1, "a failure is not remembered")
	ok, verr := s.Validate([]byte(`{"b":"x"}`))
	sym.Assert(ok && verr == nil, "the validator is the one of the repaired file")
	os.Remove(p)
	again, err := SchemaFromFile(p, "")
	sym.Assert(err == nil && again == s, "a schema is read once")
	sym.Reach("end")
}

// Verif_C20_names checks that no name of a file or type makes two schemas share a place in the cache.
// Bounds: a file "s" loaded for every type of up to three bytes of 's' to '|', after files "s|t" and "s|t|" were loaded for no type.
func Verif_C20_names() {
	d := sym.TempDir()
	for _, n := range []string{"s", "s|t", "s|t|"} {
		vFile(d, n, `{"type":"object","properties":{"`+n+`":{"type":"string"}}}`)
	}
	for _, n := range []string{"s|t", "s|t|"} {
		s, err := SchemaFromFile(d+"/"+n, "")
		sym.Assert(err == nil && vStrings(vNames(s.Properties), []string{n}), "the schema is the one of the file")
	}
	s, err := SchemaFromFile(d+"/s", sym.StrIn("type", 3, 's', '|'))
	sym.Assert(err == nil && vStrings(vNames(s.Properties), []string{"s"}), "the schema is the one of the file whatever the type is called")
	sym.Reach("end")
}
