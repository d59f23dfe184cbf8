package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value representation:
//
//	bool | *Term(bool)            booleans
//	uint64 | *Term(bv)            integers of every width (masked)
//	float64 | *Term(fp)           floats
//	string | *SymStr              strings
//	*Value                        pointers (nil *Value is nil); *SymPtr: element at symbolic index
//	Struct, Array                 aggregates (in place memory)
//	SliceV, *MapV, *ChanV         reference types
//	*Closure                      functions (nil *Closure is nil)
//	Iface                         interfaces (t==nil is nil)
//	Tuple                         multiple results
//	UPtr                          unsafe.Pointer
type Value = any

type Struct []Value
type Array []Value
type Tuple []Value

type SymStr struct{ b []Value }

type SliceV struct {
	s []Value
	n *Term // symbolic length (and capacity); s is then the materialised prefix
}

type SymPtr struct {
	elems []Value
	idx   *Term
}

type UPtr struct{ v Value }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(in *Interp, g *Gor, args []Value) Value
	name   string
}

type mapEntry struct {
	k, v    Value
	deleted bool
}

type MapV struct {
	ents  []*mapEntry
	idx   map[string]int // canonical concrete key -> entry
	live  int
	symk  int // number of live entries with symbolic keys
	epoch int
}

type ChanV struct {
	cap    int
	buf    []Value
	closed bool
	id     int
	name   string
	epoch  int
}

// SyncMap etc. opaque host payloads live in Opaque.
type Opaque struct {
	kind string
	v    any
}

func isNilPtr(v Value) bool {
	p, ok := v.(*Value)
	return ok && p == nil
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			nb := make([]Value, len(b))
			copy(nb, b)
			return &SymStr{b: nb}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(uint64))
	}
	return string(r)
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes: %T", v))
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen: %T", v))
}

func concatStr(a, b Value) Value {
	sa, ok1 := a.(string)
	sb, ok2 := b.(string)
	if ok1 && ok2 {
		return sa + sb
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return mkStr(r)
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// intWidth returns width and signedness of an integer type (0 when not one).
func intWidth(t types.Type) (int, bool) {
	b := basicOf(t)
	if b == nil {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 0, false
}

func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return UPtr{v: (*Value)(nil)}
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UntypedNil:
			return (*Value)(nil)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	panic(fmt.Sprintf("zero: unsupported type %v (%T)", t, t.Underlying()))
}

func bytesToSlice(b []byte) SliceV {
	r := make([]Value, len(b))
	for i, x := range b {
		r[i] = uint64(x)
	}
	return SliceV{s: r}
}

// concreteBytes returns the bytes when all are concrete.
func concreteBytes(vs []Value) ([]byte, bool) {
	r := make([]byte, len(vs))
	for i, v := range vs {
		u, ok := v.(uint64)
		if !ok {
			return nil, false
		}
		r[i] = byte(u)
	}
	return r, true
}

// canonKey gives a canonical text for fully concrete comparable values.
func canonKey(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case bool:
		fmt.Fprintf(sb, "b%v;", x)
	case uint64:
		fmt.Fprintf(sb, "i%d;", x)
	case float64:
		fmt.Fprintf(sb, "f%v;", x)
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(x), x)
	case *Value:
		fmt.Fprintf(sb, "p%p;", x)
	case *ChanV:
		fmt.Fprintf(sb, "c%p;", x)
	case *MapV:
		fmt.Fprintf(sb, "m%p;", x)
	case UPtr:
		return canonKey(x.v, sb)
	case *Opaque:
		fmt.Fprintf(sb, "o%p;", x)
	case Struct:
		sb.WriteByte('{')
		for _, e := range x {
			if !canonKey(e, sb) {
				return false
			}
		}
		sb.WriteByte('}')
	case Array:
		sb.WriteByte('[')
		for _, e := range x {
			if !canonKey(e, sb) {
				return false
			}
		}
		sb.WriteByte(']')
	case Iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString(types.TypeString(x.t, nil))
		sb.WriteByte('|')
		return canonKey(x.v, sb)
	default:
		return false
	}
	return true
}
