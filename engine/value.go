package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of: bool, uint64 (any integer, truncated to its width), float64, float32, string, *SymStr, *Term,
// Ptr, Struct, Array, SliceV, Iface, Tuple, *MapV, *Closure, *Func, *NativeFn, *ChanV, UPtr, RType, *Native, nil func.
type Value = any

type Ptr = *Value
type Struct []Value
type Array []Value
type SliceV []Value
type Tuple []Value
type Iface struct {
	t types.Type
	v Value
}
type SymStr struct{ b []Value }
type SymPtr struct {
	s   []Value
	idx *Term
}
type Closure struct {
	fn  *Func
	env []Value
}
type NativeFn struct {
	name string
	f    func(in *Interp, args []Value) Value
}
type UPtr struct { // unsafe.Pointer
	v Value
}
type RType struct{ t types.Type }
type Native struct { // opaque engine-side object
	kind string
	v    any
}
type FuncNil struct{}

type mapEnt struct {
	k, v Value
	dead bool
}
type MapV struct {
	ents  []*mapEnt
	idx   map[any]int
	symK  int // number of live symbolic keys
	n     int
	epoch int64
	sync  bool // accesses are synchronised (engine-side sync.Map)
}

func newMap(epoch int64) *MapV { return &MapV{idx: map[any]int{}, epoch: epoch} }

var canonMu sync.Mutex
var canonMap typeutil.Map
var canonFast sync.Map

// canon returns a canonical representative for identical types so that pointers can be compared.
func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonFast.Load(t); ok {
		return c.(types.Type)
	}
	u := types.Unalias(t)
	canonMu.Lock()
	c := canonMap.At(u)
	if c == nil {
		canonMap.Set(u, u)
		c = u
	}
	canonMu.Unlock()
	canonFast.Store(t, c)
	return c.(types.Type)
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	}
	return 0, false
}

// zero returns the zero value of a type.
func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			return false
		case info&types.IsInteger != 0:
			return uint64(0)
		case info&types.IsFloat != 0:
			if u.Kind() == types.Float32 {
				return float32(0)
			}
			return float64(0)
		case info&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case info&types.IsComplex != 0:
			return complex(0, 0)
		case u.Kind() == types.UntypedNil:
			return Ptr(nil)
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return SliceV(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported(fmt.Sprintf("zero %v", t)))
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }

// ---- strings ----

func mkStr(b []Value) Value {
	conc := true
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			conc = false
			break
		}
	}
	if conc {
		buf := make([]byte, len(b))
		for i, x := range b {
			buf[i] = byte(x.(uint64))
		}
		return string(buf)
	}
	c := make([]Value, len(b))
	copy(c, b)
	return &SymStr{b: c}
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	n := make([]Value, 0, len(x)+len(y))
	n = append(n, x...)
	n = append(n, y...)
	return &SymStr{b: n}
}

// concrete bytes of a slice, ok=false if any is symbolic.
func concBytes(s []Value) ([]byte, bool) {
	buf := make([]byte, len(s))
	for i, x := range s {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		buf[i] = byte(u)
	}
	return buf, true
}

func bytesVal(b []byte) SliceV {
	if b == nil {
		return nil
	}
	s := make(SliceV, len(b))
	for i, x := range b {
		s[i] = uint64(x)
	}
	return s
}

func strVals(ss []string) SliceV {
	s := make(SliceV, len(ss))
	for i, x := range ss {
		s[i] = x
	}
	return s
}

// isSymbolic reports whether a value contains symbolic parts (shallowly through aggregates, not through pointers).
func isSymbolic(v Value) bool {
	switch x := v.(type) {
	case *Term, *SymStr, SymPtr:
		return true
	case Iface:
		return isSymbolic(x.v)
	case Struct:
		for _, e := range x {
			if isSymbolic(e) {
				return true
			}
		}
	case Array:
		for _, e := range x {
			if isSymbolic(e) {
				return true
			}
		}
	case SliceV:
		for _, e := range x {
			if isSymbolic(e) {
				return true
			}
		}
	}
	return false
}

// mapKey converts a concrete key into a comparable Go value.
func mapKey(v Value) (any, bool) {
	switch x := v.(type) {
	case bool, uint64, string, float64, float32, Ptr, *Closure, *Func, *MapV, *ChanV, *Native, RType, complex128:
		return x, true
	case UPtr:
		return mapKey(x.v)
	case Iface:
		if x.t == nil {
			return nil, true
		}
		k, ok := mapKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t, k}, true
	case Struct:
		var sb strings.Builder
		sb.WriteString("S{")
		for _, e := range x {
			if !keyStr(&sb, e) {
				return nil, false
			}
		}
		return sb.String(), true
	case Array:
		var sb strings.Builder
		sb.WriteString("A{")
		for _, e := range x {
			if !keyStr(&sb, e) {
				return nil, false
			}
		}
		return sb.String(), true
	}
	return nil, false
}

func keyStr(sb *strings.Builder, v Value) bool {
	k, ok := mapKey(v)
	if !ok {
		return false
	}
	switch x := k.(type) {
	case string:
		sb.WriteString(strconv.Quote(x))
	case uint64:
		sb.WriteString(strconv.FormatUint(x, 10))
	case float64:
		sb.WriteString(strconv.FormatUint(math.Float64bits(x), 16))
	case [2]any:
		fmt.Fprintf(sb, "%p:%v", x[0], x[1])
	default:
		fmt.Fprintf(sb, "%T%v", x, x)
	}
	sb.WriteByte(';')
	return true
}

func (m *MapV) lookupConc(k Value) (int, bool, bool) {
	key, ok := mapKey(k)
	if !ok {
		return 0, false, false
	}
	i, found := m.idx[key]
	return i, found, true
}
