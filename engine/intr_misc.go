package main

import (
	"fmt"
	"go/format"
	"go/types"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"text/template"
)

type vfile struct {
	data []Value
	full bool // a write failed for lack of room
}
type vfs struct {
	files map[string]*vfile
	dirs  map[string]bool
	cwd   string
	limit Value // the most bytes a file holds, or nil
}

// room is the number of bytes of n that can be written to f at pos, and whether that is all of them.
func (in *Interp) room(f *vfile, pos, n int) (Value, bool) {
	v := in.fs()
	if f.full && n > 0 {
		return uint64(0), false
	}
	switch l := v.limit.(type) {
	case nil:
	case uint64:
		if int64(pos+n) > int64(l) {
			f.full = true
			return l - uint64(pos), false
		}
	case *Term:
		if n > 0 && in.decide(in.tc.Slt(l, in.tc.BV(uint64(pos+n), 64))) {
			f.full = true
			return in.tc.Arith(OSub, l, in.tc.BV(uint64(pos), 64)), false
		}
	}
	return uint64(n), true
}

type vhandle struct {
	f    *vfile
	name string
	pos  int
	wr   bool
	open bool
}

// fs is the file system of the current path: empty, with read-through to the real files of the repository.
func (in *Interp) fs() *vfs {
	p := in.needPath()
	if in.vfs == nil || in.vfsPath != p {
		in.vfs = &vfs{files: map[string]*vfile{}, dirs: map[string]bool{"/": true, "/symtmp": true}, cwd: "/symtmp"}
		in.vfsPath = p
	}
	return in.vfs
}

func (in *Interp) abs(p string) string {
	if !path.IsAbs(p) {
		p = in.fs().cwd + "/" + p
	}
	return path.Clean(p)
}

func (in *Interp) pathErr(op, name string, errno syscall.Errno) Iface {
	e := Iface{t: in.p.typ("syscall", "Errno"), v: uint64(errno)}
	return in.mkErr("io/fs", "PathError", map[string]Value{"Op": op, "Path": name, "Err": e})
}

func (in *Interp) vread(op, name string) (*vfile, Iface) {
	a := in.abs(name)
	var v *vfs
	if in.path != nil {
		v = in.fs()
		if f, ok := v.files[a]; ok {
			return f, Iface{}
		}
		if v.dirs[a] {
			return nil, in.pathErr("read", name, syscall.EISDIR)
		}
	}
	if strings.HasPrefix(a, repoDir+"/") {
		b, err := os.ReadFile(a)
		if err == nil {
			return &vfile{data: bytesVal(b)}, Iface{}
		}
	}
	return nil, in.pathErr(op, name, syscall.ENOENT)
}

func (in *Interp) vcreate(name string) (*vfile, Iface) {
	a := in.abs(name)
	v := in.fs()
	if v.dirs[a] {
		return nil, in.pathErr("open", name, syscall.EISDIR)
	}
	if !v.dirs[path.Dir(a)] {
		return nil, in.pathErr("open", name, syscall.ENOENT)
	}
	f := &vfile{}
	v.files[a] = f
	return f, Iface{}
}

func initVFS(reg regFn) {
	file := func(h *vhandle) Value { return &Native{kind: "file", v: h} }
	reg(func(in *Interp, fr *frame, a []Value) Value {
		f, err := in.vread("open", in.concStr(a[0]))
		if err.t != nil {
			return Tuple{SliceV(nil), err}
		}
		return Tuple{append(SliceV{}, f.data...), Iface{}}
	}, "os.ReadFile", "io/ioutil.ReadFile")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		f, err := in.vcreate(in.concStr(a[0]))
		if err.t != nil {
			return err
		}
		if _, ok := in.room(f, 0, len(a[1].(SliceV))); !ok {
			return in.pathErr("write", in.concStr(a[0]), syscall.EFBIG)
		}
		f.data = append([]Value{}, a[1].(SliceV)...)
		return Iface{}
	}, "os.WriteFile", "io/ioutil.WriteFile")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := in.concStr(a[0])
		f, err := in.vcreate(n)
		if err.t != nil {
			return Tuple{Ptr(nil), err}
		}
		return Tuple{file(&vhandle{f: f, name: n, wr: true, open: true}), Iface{}}
	}, "os.Create")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := in.concStr(a[0])
		f, err := in.vread("open", n)
		if err.t != nil {
			return Tuple{Ptr(nil), err}
		}
		return Tuple{file(&vhandle{f: f, name: n, open: true}), Iface{}}
	}, "os.Open")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := in.abs(in.concStr(a[0]))
		v := in.fs()
		for d := n; ; d = path.Dir(d) {
			if _, ok := v.files[d]; ok {
				return in.pathErr("mkdir", d, syscall.ENOTDIR)
			}
			v.dirs[d] = true
			if d == "/" {
				break
			}
		}
		return Iface{}
	}, "os.MkdirAll")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := in.abs(in.concStr(a[0]))
		v := in.fs()
		if v.dirs[n] || v.files[n] != nil {
			return in.pathErr("mkdir", in.concStr(a[0]), syscall.EEXIST)
		}
		if !v.dirs[path.Dir(n)] {
			return in.pathErr("mkdir", in.concStr(a[0]), syscall.ENOENT)
		}
		v.dirs[n] = true
		return Iface{}
	}, "os.Mkdir")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := in.abs(in.concStr(a[0]))
		v := in.fs()
		if !v.dirs[n] {
			e := syscall.ENOENT
			if v.files[n] != nil {
				e = syscall.ENOTDIR
			}
			return Tuple{SliceV(nil), in.pathErr("open", in.concStr(a[0]), e)}
		}
		kind := map[string]bool{}
		for k := range v.files {
			if path.Dir(k) == n {
				kind[path.Base(k)] = false
			}
		}
		for k := range v.dirs {
			if k != "/" && path.Dir(k) == n {
				kind[path.Base(k)] = true
			}
		}
		var names []string
		for k := range kind {
			names = append(names, k)
		}
		sort.Strings(names)
		r := SliceV{}
		for _, k := range names {
			m := map[string]Value{"parent": n, "name": k}
			if kind[k] {
				m["typ"] = uint64(fs.ModeDir)
			}
			r = append(r, in.mkErr("os", "unixDirent", m))
		}
		return Tuple{r, Iface{}}
	}, "os.ReadDir")
	reg(func(in *Interp, fr *frame, a []Value) Value { return Tuple{in.fs().cwd, Iface{}} }, "os.Getwd", "syscall.Getwd")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := in.abs(in.concStr(a[0]))
		if !in.fs().dirs[n] {
			return in.pathErr("chdir", n, syscall.ENOENT)
		}
		in.fs().cwd = n
		return Iface{}
	}, "os.Chdir")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := in.abs(in.concStr(a[0]))
		m := map[string]Value{"name": path.Base(n)}
		if in.fs().dirs[n] {
			m["mode"] = uint64(fs.ModeDir | 0o755)
		} else if f, err := in.vread("stat", n); err.t == nil {
			m["mode"], m["size"] = uint64(0o644), uint64(len(f.data))
		} else {
			return Tuple{Iface{}, in.pathErr("stat", n, syscall.ENOENT)}
		}
		return Tuple{in.mkErr("os", "fileStat", m), Iface{}}
	}, "os.Stat", "os.Lstat")
	reg(func(in *Interp, fr *frame, a []Value) Value { return Tuple{a[1], Iface{}} }, "golang.org/x/tools/imports.Process")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return Tuple{"", in.errNew("the templates of gogen-avro are not evaluated")}
	}, "github.com/actgardner/gogen-avro/v7/generator/flat/templates.Evaluate")
	reg(func(in *Interp, fr *frame, a []Value) Value { return Tuple{false, Iface{}} }, "flag.isZeroValue")
	reg(func(in *Interp, fr *frame, a []Value) Value { return Tuple{in.abs(in.concStr(a[0])), Iface{}} }, "path/filepath.Abs")
	h := func(a []Value) *vhandle { return a[0].(*Native).v.(*vhandle) }
	closed := func(in *Interp, op, name string) Iface {
		g := in.p.pkgs["io/fs"].Var("ErrClosed")
		return in.mkErr("io/fs", "PathError", map[string]Value{"Op": op, "Path": name, "Err": *(in.global(in.p.globalIdx(g)).(Ptr))})
	}
	wr := func(in *Interp, a []Value, b []Value) Value {
		x := h(a)
		if !x.open {
			return Tuple{uint64(0), closed(in, "write", x.name)}
		}
		if !x.wr {
			return Tuple{uint64(0), in.pathErr("write", x.name, syscall.EBADF)}
		}
		if x.f == nil { // standard output and error are not looked at
			return Tuple{uint64(len(b)), Iface{}}
		}
		if n, ok := in.room(x.f, x.pos, len(b)); !ok {
			return Tuple{n, in.pathErr("write", x.name, syscall.EFBIG)}
		}
		for _, c := range b {
			if x.pos < len(x.f.data) {
				x.f.data[x.pos] = c
			} else {
				x.f.data = append(x.f.data, c)
			}
			x.pos++
		}
		return Tuple{uint64(len(b)), Iface{}}
	}
	reg(func(in *Interp, fr *frame, a []Value) Value { return wr(in, a, a[1].(SliceV)) }, "(*os.File).Write")
	reg(func(in *Interp, fr *frame, a []Value) Value { return wr(in, a, strBytes(a[1])) }, "(*os.File).WriteString")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n, ok := a[0].(*Native)
		if !ok { // nil
			g := in.p.pkgs["io/fs"].Var("ErrInvalid")
			return *(in.global(in.p.globalIdx(g)).(Ptr))
		}
		x := n.v.(*vhandle)
		if !x.open {
			return closed(in, "close", x.name)
		}
		x.open = x.f == nil
		return Iface{}
	}, "(*os.File).Close")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		if x := h(a); !x.open {
			return closed(in, "sync", x.name)
		}
		return Iface{}
	}, "(*os.File).Sync")
	reg(func(in *Interp, fr *frame, a []Value) Value { return h(a).name }, "(*os.File).Name")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x := h(a)
		d := a[1].(SliceV)
		if !x.open {
			return Tuple{uint64(0), closed(in, "read", x.name)}
		}
		if x.f == nil || x.pos >= len(x.f.data) {
			g := in.p.pkgs["io"].Var("EOF")
			return Tuple{uint64(0), *(in.global(in.p.globalIdx(g)).(Ptr))}
		}
		n := copy(d, x.f.data[x.pos:])
		x.pos += n
		return Tuple{uint64(n), Iface{}}
	}, "(*os.File).Read")
	reg(func(in *Interp, fr *frame, a []Value) Value { return syscall.Errno(a[0].(uint64)).Error() }, "(syscall.Errno).Error")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x, ok := a[0].(Iface).v.(SliceV)
		if !ok {
			panic(unsupported("sort of no slice"))
		}
		for i := 1; i < len(x); i++ {
			for j := i; j > 0 && in.truth(in.callValue(a[1], []Value{uint64(j), uint64(j - 1)})); j-- {
				if in.racing {
					in.raceSlice(x[j-1:j+1], true)
				}
				u, v := copyVal(x[j]), copyVal(x[j-1])
				in.setCell(&x[j], v)
				in.setCell(&x[j-1], u)
			}
		}
		return nil
	}, "sort.Slice", "sort.SliceStable")
	// the text of a validation error: only the template, which is enough to tell errors apart
	reg(func(in *Interp, fr *frame, a []Value) Value { return a[0] }, "github.com/GannettDigital/gojsonschema.formatErrorDescription")
	_ = fs.ErrNotExist
	_ = filepath.Base
}

func initMisc(reg regFn) {
	// time
	reg(func(in *Interp, fr *frame, a []Value) Value { return nil }, "time.initLocal", "time.registerLoadFromEmbeddedTZData")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		t := in.p.typ("time", "Time")
		s := zero(t).(Struct)
		// 2024-02-03T04:05:06Z, no monotonic reading
		*in.fieldOf(t, s, "wall") = uint64(7_000_000)
		*in.fieldOf(t, s, "ext") = uint64(1706933106 + 62135596800)
		return s
	}, "time.Now")
	reg(func(in *Interp, fr *frame, a []Value) Value { return Tuple{uint64(1706933106), uint64(0), uint64(0)} }, "time.now")
	reg(func(in *Interp, fr *frame, a []Value) Value { return uint64(1) }, "time.runtimeNano", "runtime.nanotime", "time.runtimeNow")
	reg(func(in *Interp, fr *frame, a []Value) Value { in.yield("sleep"); return nil }, "time.Sleep")

	// jsonparser's unsafe conversions
	jp := "github.com/GannettDigital/jsonparser."
	reg(func(in *Interp, fr *frame, a []Value) Value { return mkStr((*in.toPtr(a[0])).(SliceV)) }, jp+"bytesToString")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return in.strEq(mkStr((*in.toPtr(a[0])).(SliceV)), a[1])
	}, jp+"equalStr")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return in.callFn(in.p.fnNamed("strconv", "ParseFloat"), []Value{mkStr((*in.toPtr(a[0])).(SliceV)), uint64(64)}, nil)
	}, jp+"parseFloat")
	reg(func(in *Interp, fr *frame, a []Value) Value { return toBytes(a[0]) }, jp+"StringToBytes")

	reg(func(in *Interp, fr *frame, a []Value) Value { return mkStr(a[0].(SliceV)) }, "github.com/GannettDigital/msgp/msgp.UnsafeString")

	// snappy: all data are literals, which is a proper encoding
	reg(func(in *Interp, fr *frame, a []Value) Value {
		src := a[1].(SliceV)
		var out SliceV
		n := uint64(len(src))
		for n >= 0x80 {
			out = append(out, n&0x7f|0x80)
			n >>= 7
		}
		out = append(out, n)
		for len(src) > 0 {
			k := len(src)
			if k > 65536 {
				k = 65536
			}
			switch m := uint64(k - 1); {
			case m < 60:
				out = append(out, m<<2)
			case m < 256:
				out = append(out, uint64(60<<2), m)
			default:
				out = append(out, uint64(61<<2), m&0xff, m>>8)
			}
			out = append(out, src[:k]...)
			src = src[k:]
		}
		return out
	}, "github.com/golang/snappy.Encode")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		src := a[1].(SliceV)
		bad := func() Value { return Tuple{SliceV(nil), in.errNew("snappy: corrupt input")} }
		at := 0
		get := func() (uint64, bool) {
			if at >= len(src) {
				return 0, false
			}
			v, ok := src[at].(uint64)
			if !ok {
				panic(unsupported("snappy data with arbitrary lengths"))
			}
			at++
			return v, true
		}
		var n uint64
		for sh := 0; ; sh += 7 {
			c, ok := get()
			if !ok || sh > 28 {
				return bad()
			}
			n |= (c & 0x7f) << sh
			if c < 0x80 {
				break
			}
		}
		out := SliceV{}
		for at < len(src) {
			tag, _ := get()
			if tag&3 != 0 {
				panic(unsupported("snappy copies"))
			}
			k := tag >> 2
			if k >= 60 {
				w := int(k) - 59
				k = 0
				for i := 0; i < w; i++ {
					c, ok := get()
					if !ok {
						return bad()
					}
					k |= c << (8 * i)
				}
			}
			k++
			if uint64(len(src)-at) < k {
				return bad()
			}
			out = append(out, src[at:at+int(k)]...)
			at += int(k)
		}
		if uint64(len(out)) != n {
			return bad()
		}
		return Tuple{out, Iface{}}
	}, "github.com/golang/snappy.Decode")
	reg(func(in *Interp, fr *frame, a []Value) Value { return uint64(0x1234) }, "hash/crc32.ChecksumIEEE")

	// regexp
	rx := func(v Value) *regexp.Regexp {
		n, ok := v.(*Native)
		if !ok {
			panic(unsupported("regexp on a foreign value"))
		}
		return n.v.(*regexp.Regexp)
	}
	compile := func(in *Interp, s string) (Value, error) {
		if v, ok := in.memo["regexp\x00"+s]; ok {
			return v, nil
		}
		re, err := regexp.Compile(s)
		if err != nil {
			return Ptr(nil), err
		}
		v := &Native{kind: "regexp", v: re}
		in.memo["regexp\x00"+s] = v
		return v, nil
	}
	reg(func(in *Interp, fr *frame, a []Value) Value {
		v, err := compile(in, in.concStr(a[0]))
		if err != nil {
			return Tuple{Ptr(nil), in.errNew(err.Error())}
		}
		return Tuple{v, Iface{}}
	}, "regexp.Compile")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		v, err := compile(in, in.concStr(a[0]))
		if err != nil {
			panic(targetPanic{Iface{t: canon(types.Typ[types.String]), v: "regexp: Compile(" + in.concStr(a[0]) + "): " + err.Error()}})
		}
		return v
	}, "regexp.MustCompile")
	ints := func(x []int) SliceV {
		if x == nil {
			return nil
		}
		s := make(SliceV, len(x))
		for i := range x {
			s[i] = uint64(int64(x[i]))
		}
		return s
	}
	_ = ints
	rm := func(name string, f func(in *Interp, re *regexp.Regexp, a []Value) Value) {
		reg(func(in *Interp, fr *frame, a []Value) Value { return f(in, rx(a[0]), a) }, "(*regexp.Regexp)."+name)
	}
	cs := func(in *Interp, v Value) string { return in.concStr(v) }
	cb := func(in *Interp, v Value) []byte { return []byte(in.concStr(mkStr(v.(SliceV)))) }
	rm("String", func(in *Interp, re *regexp.Regexp, a []Value) Value { return re.String() })
	rm("MatchString", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		if s, ok := a[1].(*SymStr); ok {
			return in.rxMatch(re, s.b)
		}
		return re.MatchString(cs(in, a[1]))
	})
	rm("Match", func(in *Interp, re *regexp.Regexp, a []Value) Value { return re.Match(cb(in, a[1])) })
	rm("FindString", func(in *Interp, re *regexp.Regexp, a []Value) Value { return re.FindString(cs(in, a[1])) })
	rm("FindStringSubmatch", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		if s, ok := a[1].(*SymStr); ok {
			return in.rxSubmatch(re, s.b)
		}
		r := re.FindStringSubmatch(cs(in, a[1]))
		if r == nil {
			return SliceV(nil)
		}
		return strVals(r)
	})
	rm("FindAllString", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		r := re.FindAllString(cs(in, a[1]), int(in.concInt(a[2])))
		if r == nil {
			return SliceV(nil)
		}
		return strVals(r)
	})
	rm("FindStringIndex", func(in *Interp, re *regexp.Regexp, a []Value) Value { return ints(re.FindStringIndex(cs(in, a[1]))) })
	rm("ReplaceAllString", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		return in.rxReplace(re, a[1], a[2], true)
	})
	rm("ReplaceAllLiteralString", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		return in.rxReplace(re, a[1], a[2], false)
	})
	rm("Split", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		return strVals(re.Split(cs(in, a[1]), int(in.concInt(a[2]))))
	})
	rm("Longest", func(in *Interp, re *regexp.Regexp, a []Value) Value { re.Longest(); return nil })
	reg(func(in *Interp, fr *frame, a []Value) Value {
		ok, err := regexp.MatchString(cs(in, a[0]), cs(in, a[1]))
		if err != nil {
			return Tuple{false, in.errNew(err.Error())}
		}
		return Tuple{ok, Iface{}}
	}, "regexp.MatchString")

	// go/format
	reg(func(in *Interp, fr *frame, a []Value) Value {
		src := a[0].(SliceV)
		if b, ok := concBytes(src); ok {
			r, err := format.Source(b)
			if err != nil {
				return Tuple{SliceV(nil), in.errNew(err.Error())}
			}
			return Tuple{bytesVal(r), Iface{}}
		}
		// symbolic text: the real parser decides whether it is a Go file, the layout is left alone
		fset := in.callFn(in.p.fnNamed("go/token", "NewFileSet"), nil, nil)
		r := in.callFn(in.p.fnNamed("go/parser", "ParseFile"), []Value{fset, "", Iface{t: canon(types.NewSlice(types.Typ[types.Byte])), v: src}, uint64(4 | 1<<6)}, nil).(Tuple)
		if r[1].(Iface).t != nil {
			return Tuple{SliceV(nil), r[1]}
		}
		return Tuple{append(SliceV{}, src...), Iface{}}
	}, "go/format.Source")

	// text/template on concrete data
	tp := "text/template."
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return &Native{kind: "template", v: template.New(a[0].(string))}
	}, tp+"New")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		t := a[0].(*Native)
		r, err := t.v.(*template.Template).Parse(in.concStr(a[1]))
		if err != nil {
			return Tuple{Ptr(nil), in.errNew(err.Error())}
		}
		if r == t.v.(*template.Template) {
			return Tuple{t, Iface{}}
		}
		return Tuple{&Native{kind: "template", v: r}, Iface{}}
	}, "(*text/template.Template).Parse")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		e := a[1].(Iface)
		if e.t != nil {
			panic(targetPanic{e})
		}
		return a[0]
	}, tp+"Must")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		m := template.FuncMap{}
		for _, e := range a[1].(*MapV).live() {
			f := e.v.(Iface)
			fv := f.v
			sig := f.t.Underlying().(*types.Signature)
			switch {
			case sig.Params().Len() == 1 && isString(sig.Params().At(0).Type()) && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()):
				m[e.k.(string)] = func(s string) string { return in.concStr(in.callValue(fv, []Value{s})) }
			case sig.Params().Len() == 1 && isString(sig.Params().At(0).Type()) && sig.Results().Len() == 1:
				m[e.k.(string)] = func(s string) bool { return in.truth(in.callValue(fv, []Value{s})) }
			default:
				panic(unsupported("template function " + e.k.(string)))
			}
		}
		a[0].(*Native).v.(*template.Template).Funcs(m)
		return a[0]
	}, "(*text/template.Template).Funcs")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		var sb strings.Builder
		d := in.toNative(a[2])
		if err := a[0].(*Native).v.(*template.Template).Execute(&sb, d); err != nil {
			return in.errNew(err.Error())
		}
		r := in.writeTo(a[1], sb.String()).(Tuple)
		return r[1]
	}, "(*text/template.Template).Execute")
	for _, n := range []string{"sort.Strings", "slices.Sort"} {
		_ = n
	}
	_ = sort.Strings
}

// toNative converts a concrete engine value into plain Go data for template execution.
func (in *Interp) toNative(v Value) any {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		if st, ok := x.t.Underlying().(*types.Struct); ok {
			m := map[string]any{}
			for i, f := range x.v.(Struct) {
				m[st.Field(i).Name()] = in.toNativeT(f, st.Field(i).Type())
			}
			return m
		}
		return in.toNativeT(x.v, x.t)
	}
	return in.toNativeT(v, nil)
}

func (in *Interp) toNativeT(v Value, t types.Type) any {
	switch x := v.(type) {
	case Iface:
		return in.toNative(x)
	case string:
		return x
	case *SymStr:
		return in.concStr(x)
	case bool:
		return x
	case uint64:
		return int(int64(x))
	case float64:
		return x
	case *MapV:
		m := map[string]any{}
		var et types.Type
		if t != nil {
			et = t.Underlying().(*types.Map).Elem()
		}
		for _, e := range x.live() {
			m[in.concStr(e.k)] = in.toNativeT(e.v, et)
		}
		return m
	case SliceV:
		var out []any
		var et types.Type
		if t != nil {
			et = t.Underlying().(*types.Slice).Elem()
		}
		for _, e := range x {
			out = append(out, in.toNativeT(e, et))
		}
		return out
	case Struct:
		m := map[string]any{}
		st := t.Underlying().(*types.Struct)
		for i, f := range x {
			m[st.Field(i).Name()] = in.toNativeT(f, st.Field(i).Type())
		}
		return m
	case Ptr:
		if x == nil {
			return nil
		}
		var et types.Type
		if t != nil {
			et = t.Underlying().(*types.Pointer).Elem()
		}
		return in.toNativeT(*x, et)
	}
	panic(unsupported(fmt.Sprintf("template data %T", v)))
}
