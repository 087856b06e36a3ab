package main

import (
	"bytes"
	"encoding/json"
	"go/types"
	"os"
	"path"
	"regexp"
	"sort"
	"strings"
	"syscall"
)

// indentJSON indents JSON in which bytes of strings and numbers may be symbolic.
func indentJSON(src []Value, prefix, indent string) ([]Value, bool) {
	if strings.Trim(prefix+indent, " \t\n\r") != "" {
		panic(unsupported("indentation of JSON with other characters than white space"))
	}
	conc := make([]byte, len(src))
	inStr := false
	for i := 0; i < len(src); i++ {
		c, ok := src[i].(uint64)
		switch {
		case !ok && inStr:
			conc[i] = 'a'
		case !ok:
			conc[i] = '1'
		default:
			conc[i] = byte(c)
			if inStr && c == '\\' && i+1 < len(src) {
				i++
				e, ok := src[i].(uint64)
				if !ok {
					panic(unsupported("indentation of JSON with an arbitrary escape"))
				}
				conc[i] = byte(e)
			} else if c == '"' {
				inStr = !inStr
			}
		}
	}
	var b bytes.Buffer
	if err := json.Indent(&b, conc, prefix, indent); err != nil {
		return nil, false
	}
	return alignJSON(b.Bytes(), src), true
}

// alignJSON gives the bytes of JSON text that differs in its white space only their values.
func alignJSON(out []byte, src []Value) []Value {
	isWS := func(v Value) bool {
		c, ok := v.(uint64)
		return ok && (c == ' ' || c == '\t' || c == '\n' || c == '\r')
	}
	r := make([]Value, 0, len(out))
	j, inStr, esc := 0, false, false
	for _, c := range out {
		ws := c == ' ' || c == '\t' || c == '\n' || c == '\r'
		if ws && !inStr {
			r = append(r, uint64(c))
			continue
		}
		for !inStr && j < len(src) && isWS(src[j]) {
			j++
		}
		r = append(r, src[j])
		j++
		switch {
		case esc:
			esc = false
		case inStr && c == '\\':
			esc = true
		case c == '"':
			inStr = !inStr
		}
	}
	return r
}

func initMore(reg regFn) {
	// maps and slices
	reg(func(in *Interp, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		m := i.v.(*MapV)
		if m == nil {
			return i
		}
		n := newMap(in.epoch)
		for _, e := range m.live() {
			in.mapSet(n, e.k, e.v)
		}
		return Iface{t: i.t, v: n}
	}, "maps.clone")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x, y := a[0].(SliceV), a[1].(SliceV)
		for i := range x {
			for j := range y {
				if &x[i] == &y[j] {
					return true
				}
			}
		}
		return false
	}, "slices.overlaps")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x, y := a[0].(SliceV), a[1].(SliceV)
		for j := range y {
			if &x[0] == &y[j] {
				return uint64(j)
			}
		}
		panic(unsupported("slices.startIdx of slices apart"))
	}, "slices.startIdx")
	// math/big: the assembly has Go versions
	for _, n := range []string{"addVV", "subVV", "lshVU", "rshVU", "mulAddVWW", "addMulVVWW"} {
		n := n
		reg(func(in *Interp, fr *frame, a []Value) Value {
			return in.callFn(in.p.fnNamed("math/big", n+"_g"), a, nil)
		}, "math/big."+n)
	}
	// JSON with layout
	reg(func(in *Interp, fr *frame, a []Value) Value {
		o, e := in.jsonMarshal(a[0].(Iface), true)
		if e.t != nil {
			return Tuple{SliceV(nil), e}
		}
		b, _ := indentJSON(o, in.concStr(a[1]), in.concStr(a[2]))
		return Tuple{SliceV(b), Iface{}}
	}, "encoding/json.MarshalIndent")
	valid := func(in *Interp, src SliceV) Iface {
		if _, msg := in.jparse(src); msg != "" {
			return in.mkErr("encoding/json", "SyntaxError", map[string]Value{"msg": msg, "Offset": uint64(0)})
		}
		return Iface{}
	}
	bufWrite := func(in *Interp, buf Value, b []Value) {
		in.callMethod(Iface{t: canon(types.NewPointer(in.p.typ("bytes", "Buffer"))), v: buf}, "Write", SliceV(b))
	}
	reg(func(in *Interp, fr *frame, a []Value) Value {
		if e := valid(in, a[1].(SliceV)); e.t != nil {
			return e
		}
		b, _ := indentJSON(a[1].(SliceV), in.concStr(a[2]), in.concStr(a[3]))
		bufWrite(in, a[0], b)
		return Iface{}
	}, "encoding/json.Indent")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		src := a[1].(SliceV)
		if e := valid(in, src); e.t != nil {
			return e
		}
		var out []Value
		inStr := false
		for i := 0; i < len(src); i++ {
			c, ok := src[i].(uint64)
			if ok && !inStr && (c == ' ' || c == '\t' || c == '\n' || c == '\r') {
				continue
			}
			out = append(out, src[i])
			if ok && inStr && c == '\\' && i+1 < len(src) {
				i++
				out = append(out, src[i])
			} else if ok && c == '"' {
				inStr = !inStr
			}
		}
		bufWrite(in, a[0], out)
		return Iface{}
	}, "encoding/json.Compact")

	// files
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := in.concStr(a[0])
		flag := int(in.concInt(a[1]))
		v := in.fs()
		f, exists := v.files[in.abs(n)]
		if flag&(os.O_WRONLY|os.O_RDWR) == 0 {
			f, err := in.vread("open", n)
			if err.t != nil {
				return Tuple{Ptr(nil), err}
			}
			return Tuple{&Native{kind: "file", v: &vhandle{f: f, name: n, open: true}}, Iface{}}
		}
		if exists && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return Tuple{Ptr(nil), in.pathErr("open", n, syscall.EEXIST)}
		}
		if !exists && flag&os.O_CREATE == 0 {
			return Tuple{Ptr(nil), in.pathErr("open", n, syscall.ENOENT)}
		}
		if !exists || flag&os.O_TRUNC != 0 {
			var err Iface
			if f, err = in.vcreate(n); err.t != nil {
				return Tuple{Ptr(nil), err}
			}
		}
		h := &vhandle{f: f, name: n, wr: true, open: true}
		if flag&os.O_APPEND != 0 {
			h.pos = len(f.data)
		}
		return Tuple{&Native{kind: "file", v: h}, Iface{}}
	}, "os.OpenFile")
	temp := func(in *Interp, dir, pattern string) string {
		if dir == "" {
			dir = "/symtmp"
		}
		v := in.fs()
		pre, post := pattern, ""
		if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
			pre, post = pattern[:i], pattern[i+1:]
		}
		for i := 0; ; i++ {
			n := path.Join(dir, pre+strings.Repeat("1", 3)+string(rune('0'+i%10))+strings.Repeat("7", i/10)+post)
			if a := in.abs(n); v.files[a] == nil && !v.dirs[a] {
				return n
			}
		}
	}
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := temp(in, in.concStr(a[0]), in.concStr(a[1]))
		f, err := in.vcreate(n)
		if err.t != nil {
			return Tuple{Ptr(nil), err}
		}
		return Tuple{&Native{kind: "file", v: &vhandle{f: f, name: n, wr: true, open: true}}, Iface{}}
	}, "os.CreateTemp", "io/ioutil.TempFile")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := temp(in, in.concStr(a[0]), in.concStr(a[1]))
		in.fs().dirs[in.abs(n)] = true
		return Tuple{n, Iface{}}
	}, "os.MkdirTemp", "io/ioutil.TempDir")
	reg(func(in *Interp, fr *frame, a []Value) Value { return "/symtmp" }, "os.TempDir")
	children := func(v *vfs, n string) bool {
		for k := range v.files {
			if strings.HasPrefix(k, n+"/") {
				return true
			}
		}
		for k := range v.dirs {
			if strings.HasPrefix(k, n+"/") {
				return true
			}
		}
		return false
	}
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := in.abs(in.concStr(a[0]))
		v := in.fs()
		for k := range v.files {
			if k == n || strings.HasPrefix(k, n+"/") {
				delete(v.files, k)
			}
		}
		for k := range v.dirs {
			if k != "/" && (k == n || strings.HasPrefix(k, n+"/")) {
				delete(v.dirs, k)
			}
		}
		return Iface{}
	}, "os.RemoveAll")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := in.abs(in.concStr(a[0]))
		v := in.fs()
		switch {
		case v.files[n] != nil:
			delete(v.files, n)
		case v.dirs[n] && children(v, n):
			return in.pathErr("remove", in.concStr(a[0]), syscall.ENOTEMPTY)
		case v.dirs[n]:
			delete(v.dirs, n)
		default:
			return in.pathErr("remove", in.concStr(a[0]), syscall.ENOENT)
		}
		return Iface{}
	}, "os.Remove")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		from, to := in.abs(in.concStr(a[0])), in.abs(in.concStr(a[1]))
		v := in.fs()
		f := v.files[from]
		if f == nil || v.dirs[to] || !v.dirs[path.Dir(to)] {
			if v.dirs[from] {
				panic(unsupported("renaming a directory"))
			}
			e := Iface{t: in.p.typ("syscall", "Errno"), v: uint64(syscall.ENOENT)}
			return in.mkErr("os", "LinkError", map[string]Value{"Op": "rename", "Old": a[0], "New": a[1], "Err": e})
		}
		delete(v.files, from)
		v.files[to] = f
		return Iface{}
	}, "os.Rename")
	reg(func(in *Interp, fr *frame, a []Value) Value { return Iface{} }, "os.Chmod", "(*os.File).Chmod", "os.Chtimes")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		h := a[0].(*Native).v.(*vhandle)
		m := map[string]Value{"name": path.Base(h.name), "mode": uint64(0o644), "size": uint64(len(h.f.data))}
		return Tuple{in.mkErr("os", "fileStat", m), Iface{}}
	}, "(*os.File).Stat")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		h := a[0].(*Native).v.(*vhandle)
		off := int(in.concInt(a[1]))
		switch in.concInt(a[2]) {
		case 1:
			off += h.pos
		case 2:
			off += len(h.f.data)
		}
		h.pos = off
		return Tuple{uint64(off), Iface{}}
	}, "(*os.File).Seek")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		h := a[0].(*Native).v.(*vhandle)
		n := int(in.concInt(a[1]))
		for len(h.f.data) < n {
			h.f.data = append(h.f.data, uint64(0))
		}
		h.f.data = h.f.data[:n:n]
		return Iface{}
	}, "(*os.File).Truncate")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		pat := in.abs(in.concStr(a[0]))
		abs := pat == path.Clean(in.concStr(a[0]))
		v := in.fs()
		var r []string
		add := func(k string) {
			if ok, _ := path.Match(pat, k); ok {
				if !abs {
					k = strings.TrimPrefix(k, v.cwd+"/")
				}
				r = append(r, k)
			}
		}
		for k := range v.files {
			add(k)
		}
		for k := range v.dirs {
			add(k)
		}
		sort.Strings(r)
		if _, err := path.Match(pat, ""); err != nil {
			return Tuple{SliceV(nil), *(in.global(in.p.globalIdx(in.p.pkgs["path/filepath"].Var("ErrBadPattern"))).(Ptr))}
		}
		if r == nil {
			return Tuple{SliceV(nil), Iface{}}
		}
		return Tuple{strVals(r), Iface{}}
	}, "path/filepath.Glob")

	// regexp methods on concrete text
	cs := func(in *Interp, v Value) string { return in.concStr(v) }
	cb := func(in *Interp, v Value) []byte { return []byte(in.concStr(mkStr(v.(SliceV)))) }
	ints := func(x []int) Value {
		if x == nil {
			return SliceV(nil)
		}
		s := make(SliceV, len(x))
		for i := range x {
			s[i] = uint64(int64(x[i]))
		}
		return s
	}
	rm := func(name string, f func(in *Interp, re *regexp.Regexp, a []Value) Value) {
		reg(func(in *Interp, fr *frame, a []Value) Value {
			n, ok := a[0].(*Native)
			if !ok {
				panic(unsupported("regexp on a foreign value"))
			}
			return f(in, n.v.(*regexp.Regexp), a)
		}, "(*regexp.Regexp)."+name)
	}
	rm("NumSubexp", func(in *Interp, re *regexp.Regexp, a []Value) Value { return uint64(re.NumSubexp()) })
	rm("SubexpNames", func(in *Interp, re *regexp.Regexp, a []Value) Value { return strVals(re.SubexpNames()) })
	rm("SubexpIndex", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		return uint64(int64(re.SubexpIndex(cs(in, a[1]))))
	})
	rm("FindStringSubmatchIndex", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		return ints(re.FindStringSubmatchIndex(cs(in, a[1])))
	})
	rm("FindIndex", func(in *Interp, re *regexp.Regexp, a []Value) Value { return ints(re.FindIndex(cb(in, a[1]))) })
	rm("Find", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		r := re.Find(cb(in, a[1]))
		if r == nil {
			return SliceV(nil)
		}
		return bytesVal(r)
	})
	rm("ReplaceAll", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		return bytesVal(re.ReplaceAll(cb(in, a[1]), cb(in, a[2])))
	})
	rm("FindAllStringSubmatch", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		r := re.FindAllStringSubmatch(cs(in, a[1]), int(in.concInt(a[2])))
		if r == nil {
			return SliceV(nil)
		}
		var o SliceV
		for _, x := range r {
			o = append(o, strVals(x))
		}
		return o
	})
	rm("FindAllStringIndex", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		r := re.FindAllStringIndex(cs(in, a[1]), int(in.concInt(a[2])))
		if r == nil {
			return SliceV(nil)
		}
		var o SliceV
		for _, x := range r {
			o = append(o, ints(x))
		}
		return o
	})
	rm("ReplaceAllStringFunc", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		s := cs(in, a[1])
		var out []Value
		last := 0
		for _, m := range re.FindAllStringIndex(s, -1) {
			out = append(out, strBytes(s[last:m[0]])...)
			out = append(out, strBytes(in.callValue(a[2], []Value{s[m[0]:m[1]]}))...)
			last = m[1]
		}
		return mkStr(append(out, strBytes(s[last:])...))
	})
	reg(func(in *Interp, fr *frame, a []Value) Value { return regexp.QuoteMeta(cs(in, a[0])) }, "regexp.QuoteMeta")
}
