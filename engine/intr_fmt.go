package main

// A native model of package fmt over interpreter values. Symbolic strings keep
// their symbolic bytes; symbolic integers are concretised when their range is
// small and otherwise printed as a placeholder.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fmtIntrinsics(reg regFn) {
	sprintf := func(in *Interp, g *Gor, f Value, args Value) Value {
		var as []Value
		if s, ok := args.(SliceV); ok {
			as = s.s
		}
		v, _ := in.sprintf(g, in.str(f), as)
		return v
	}
	sprint := func(ln bool) func(in *Interp, g *Gor, args Value) Value {
		return func(in *Interp, g *Gor, args Value) Value {
			var out Value = ""
			prevStr := true
			for i, a := range args.(SliceV).s {
				x := a.(Iface)
				_, isS := x.v.(string)
				if _, ok := x.v.(*SymStr); ok {
					isS = true
				}
				if i > 0 && (ln || (!isS && !prevStr)) {
					out = concatStr(out, " ")
				}
				prevStr = isS
				out = concatStr(out, in.fmtValue(g, 'v', "", x))
			}
			if ln {
				out = concatStr(out, "\n")
			}
			return out
		}
	}
	reg("fmt.Sprintf", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return sprintf(in, g, a[0], a[1]) }))
	reg("fmt.Sprint", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return sprint(false)(in, g, a[0]) }))
	reg("fmt.Sprintln", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return sprint(true)(in, g, a[0]) }))
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return Tuple{uint64(0), Iface{}} }))
	}
	write := func(in *Interp, g *Gor, w Value, s Value) Value {
		i := w.(Iface)
		if i.t == nil {
			in.nilDeref()
		}
		b := strBytes(s)
		return in.callMethod(g, i, "Write", SliceV{s: append([]Value{}, b...)})
	}
	reg("fmt.Fprintf", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return write(in, g, a[0], sprintf(in, g, a[1], a[2]))
	}))
	reg("fmt.Fprint", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return write(in, g, a[0], sprint(false)(in, g, a[1]))
	}))
	reg("fmt.Fprintln", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return write(in, g, a[0], sprint(true)(in, g, a[1]))
	}))
	reg("fmt.Errorf", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		var as []Value
		if s, ok := a[1].(SliceV); ok {
			as = s.s
		}
		msg, wrapped := in.sprintf(g, in.str(a[0]), as)
		if len(wrapped) > 1 {
			p := new(Value)
			*p = Struct{msg, SliceV{s: wrapped}}
			return Iface{t: in.eng.wrapErrsT, v: p}
		}
		if len(wrapped) > 0 {
			p := new(Value)
			*p = Struct{msg, wrapped[0]}
			return Iface{t: in.eng.wrapErrT, v: p}
		}
		p := new(Value)
		*p = Struct{msg}
		return Iface{t: in.eng.errStrT, v: p}
	}))
}

func (in *Interp) mkError(msg string) Iface {
	p := new(Value)
	*p = Struct{msg}
	return Iface{t: in.eng.errStrT, v: p}
}

func (in *Interp) sprintf(g *Gor, f string, args []Value) (Value, []Value) {
	var out Value = ""
	var wrapped []Value
	ai, indexed := 0, false
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = concatStr(out, f[i:])
			break
		}
		out = concatStr(out, f[i:i+j])
		i += j + 1
		flags := ""
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[", f[i]) >= 0 {
			switch f[i] {
			case '*':
				if ai < len(args) {
					if x, ok := args[ai].(Iface).v.(uint64); ok {
						flags += strconv.FormatInt(int64(x), 10)
					} else {
						in.unsupported("symbolic width of a verb")
					}
					ai++
				}
			case '[':
				e := strings.IndexByte(f[i:], ']')
				if e < 0 {
					in.unsupported("format %q", f)
				}
				n, err := strconv.Atoi(f[i+1 : i+e])
				if err != nil || n < 1 {
					in.unsupported("format %q", f)
				}
				ai, indexed = n-1, true
				i += e
			default:
				flags += f[i : i+1]
			}
			i++
		}
		if i >= len(f) {
			out = concatStr(out, "%!(NOVERB)")
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = concatStr(out, "%")
			continue
		}
		if ai >= len(args) {
			out = concatStr(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'w' {
			if a.t != nil {
				wrapped = append(wrapped, a)
			}
			verb = 'v'
			if a.t == nil {
				out = concatStr(out, "%!w(<nil>)")
				continue
			}
		}
		out = concatStr(out, in.fmtValue(g, verb, flags, a))
	}
	if ai < len(args) && !indexed {
		out = concatStr(out, "%!(EXTRA ")
		for k, x := range args[ai:] {
			if k > 0 {
				out = concatStr(out, ", ")
			}
			a := x.(Iface)
			if a.t != nil {
				out = concatStr(out, types.TypeString(a.t, func(p *types.Package) string { return p.Name() })+"=")
			}
			out = concatStr(out, in.fmtValue(g, 'v', "", a))
		}
		out = concatStr(out, ")")
	}
	return out, wrapped
}

func (in *Interp) fmtValue(g *Gor, verb byte, flags string, i Iface) Value {
	if i.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if _, ok := i.v.(*Opaque); ok {
		return "opaque"
	}
	if verb == 'T' {
		return types.TypeString(i.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	return in.fmtTyped(g, verb, flags, i.t, i.v, 0)
}

func (in *Interp) pad(flags string, v Value) Value {
	fl := strings.TrimLeft(flags, "+# ")
	if fl == "" {
		return v
	}
	left := strings.HasPrefix(fl, "-")
	fl = strings.TrimPrefix(fl, "-")
	zero := strings.HasPrefix(fl, "0")
	if k := strings.IndexByte(fl, '.'); k >= 0 {
		fl = fl[:k]
	}
	w, err := strconv.Atoi(fl)
	if err != nil {
		return v
	}
	for strLen(v) < w {
		switch {
		case left:
			v = concatStr(v, " ")
		case zero:
			v = concatStr("0", v)
		default:
			v = concatStr(" ", v)
		}
	}
	return v
}

func (in *Interp) fmtTyped(g *Gor, verb byte, flags string, t types.Type, v Value, depth int) (res Value) {
	if depth > 8 {
		return "..."
	}
	if verb != 'd' && verb != 't' && verb != 'c' && !strings.Contains(flags, "#") {
		for _, name := range []string{"Error", "String"} {
			m := in.eng.lookupMethod(t, nil, name)
			if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 || !isString(m.Signature.Results().At(0).Type()) {
				continue
			}
			if isNilPtr(v) {
				// fmt catches the panic of a nil receiver
				var r Value = "<nil>"
				func() {
					defer func() {
						if x := recover(); x != nil {
							if _, ok := x.(goPanic); !ok {
								panic(x)
							}
						}
					}()
					r = in.callOn(g, &Closure{fn: m}, []Value{v})
				}()
				return r
			}
			return in.fmtStr(verb, flags, in.callOn(g, &Closure{fn: m}, []Value{v}))
		}
	}
	if w, signed := intWidth(t); w > 0 {
		switch x := v.(type) {
		case *Term:
			if umax(x) <= 64 || x.w == 8 && verb == 'c' {
				v = in.concretize(x)
			} else {
				in.eng.run.note("info: formatting of a symbolic integer approximated")
				return "<sym>"
			}
		}
		x := v.(uint64)
		base := 10
		switch verb {
		case 'x', 'X':
			base = 16
		case 'b':
			base = 2
		case 'o':
			base = 8
		case 'c':
			return string(rune(sext(x, w)))
		case 'q':
			return strconv.QuoteRune(rune(sext(x, w)))
		case 'U':
			return fmt.Sprintf("%"+flags+"U", rune(sext(x, w)))
		}
		s := ""
		if signed {
			s = strconv.FormatInt(sext(x, w), base)
		} else {
			s = strconv.FormatUint(x, base)
		}
		if strings.IndexByte("vdxXbo", verb) < 0 {
			return "%!" + string(verb) + "(" + types.TypeString(t, func(p *types.Package) string { return p.Name() }) + "=" + s + ")"
		}
		if strings.Contains(flags, "#") && (verb == 'x' || verb == 'X') {
			if strings.HasPrefix(s, "-") {
				s = "-0x" + s[1:]
			} else {
				s = "0x" + s
			}
		}
		if verb == 'X' {
			s = strings.ToUpper(s)
		}
		if n := precOf(flags); n >= 0 {
			sign := ""
			if strings.HasPrefix(s, "-") {
				sign, s = "-", s[1:]
			}
			if len(s) < n {
				s = strings.Repeat("0", n-len(s)) + s
			}
			s = sign + s
		}
		if strings.Contains(flags, "+") && verb == 'd' && !strings.HasPrefix(s, "-") {
			s = "+" + s
		}
		return in.pad(flags, s)
	}
	if isBoolT(t) {
		b := in.branch(v)
		return in.pad(flags, strconv.FormatBool(b))
	}
	if isString(t) {
		return in.fmtStr(verb, flags, v)
	}
	if isFloat(t) {
		x, ok := v.(float64)
		if !ok {
			return "<symfloat>"
		}
		if b := basicOf(t); b != nil && b.Kind() == types.Float32 {
			return fmt.Sprintf("%"+flags+string(verb), float32(x))
		}
		return fmt.Sprintf("%"+flags+string(verb), x)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Array:
		var el []Value
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			sv := v.(SliceV)
			if sv.n != nil {
				return "<buf>"
			}
			el, et = sv.s, s.Elem()
		} else {
			el, et = v.(Array), u.(*types.Array).Elem()
		}
		if w, _ := intWidth(et); w == 8 && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			return in.fmtStr(verb, flags, mkStr(el))
		}
		var out Value = "["
		for i, e := range el {
			if i > 0 {
				out = concatStr(out, " ")
			}
			out = concatStr(out, in.fmtTyped(g, verb, flags, et, e, depth+1))
		}
		return concatStr(out, "]")
	case *types.Map:
		m := v.(*MapV)
		var out Value = "map["
		n := 0
		if m != nil {
			ents := append(m.ents[:0:0], m.ents...)
			sort.SliceStable(ents, func(i, j int) bool { // fmt sorts the keys
				switch a := ents[i].k.(type) {
				case string:
					b, ok := ents[j].k.(string)
					return ok && a < b
				case uint64:
					b, ok := ents[j].k.(uint64)
					return ok && a < b
				}
				return false
			})
			for _, e := range ents {
				if e.deleted {
					continue
				}
				if n > 0 {
					out = concatStr(out, " ")
				}
				n++
				out = concatStr(out, in.fmtTyped(g, verb, flags, u.Key(), e.k, depth+1))
				out = concatStr(out, ":")
				out = concatStr(out, in.fmtTyped(g, verb, flags, u.Elem(), e.v, depth+1))
			}
		}
		return concatStr(out, "]")
	case *types.Struct:
		s := v.(Struct)
		var out Value = "{"
		for i := range s {
			if i > 0 {
				out = concatStr(out, " ")
			}
			if strings.Contains(flags, "+") {
				out = concatStr(out, u.Field(i).Name()+":")
			}
			out = concatStr(out, in.fmtTyped(g, verb, flags, u.Field(i).Type(), s[i], depth+1))
		}
		return concatStr(out, "}")
	case *types.Pointer:
		if isNilPtr(v) {
			return "<nil>"
		}
		if p, ok := v.(*Value); ok && depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Map, *types.Slice, *types.Array:
				return concatStr("&", in.fmtTyped(g, verb, flags, u.Elem(), *p, depth+1))
			}
		}
		return "0xc000000000"
	case *types.Interface:
		i, ok := v.(Iface)
		if !ok || i.t == nil {
			return "<nil>"
		}
		if _, ok := i.v.(*Opaque); ok {
			return "opaque"
		}
		return in.fmtTyped(g, verb, flags, i.t, i.v, depth+1)
	}
	return "0xc000000000"
}

// precOf is the precision of a verb, -1 when it has none.
func precOf(flags string) int {
	k := strings.IndexByte(flags, '.')
	if k < 0 {
		return -1
	}
	n, _ := strconv.Atoi(flags[k+1:])
	return n
}

// truncStr is the first n characters of a string.
func (in *Interp) truncStr(v Value, n int) Value {
	if s, ok := v.(string); ok {
		for i := range s {
			if n--; n < 0 {
				return s[:i]
			}
		}
		return s
	}
	b := strBytes(v)
	for i, x := range b {
		if t, ok := x.(*Term); ok && umax(t) >= 0x80 {
			in.eng.run.note("info: precision of a symbolic string counted in bytes")
		}
		if i >= n {
			return mkStr(b[:i])
		}
	}
	return v
}

func (in *Interp) fmtStr(verb byte, flags string, v Value) Value {
	if n := precOf(flags); n >= 0 && strLen(v) > n && strings.IndexByte("svqxX", verb) >= 0 {
		if verb == 'x' || verb == 'X' {
			v = mkStr(strBytes(v)[:n])
		} else {
			v = in.truncStr(v, n)
		}
	}
	switch verb {
	case 's', 'v':
		if strings.Contains(flags, "#") {
			return strconv.Quote(in.str(v))
		}
		return in.pad(flags, v)
	case 'q':
		if s, ok := v.(string); ok {
			return strconv.Quote(s)
		}
		return concatStr(concatStr("\"", v), "\"")
	case 'x', 'X':
		const lo, hi = "0123456789abcdef", "0123456789ABCDEF"
		tab := lo
		if verb == 'X' {
			tab = hi
		}
		var out []Value
		for i, b := range strBytes(v) {
			if i > 0 && strings.Contains(flags, " ") {
				out = append(out, uint64(' '))
			}
			if strings.Contains(flags, "#") && (i == 0 || strings.Contains(flags, " ")) {
				out = append(out, uint64('0'), uint64(verb))
			}
			out = append(out, in.hexDigit(b, 4, tab), in.hexDigit(b, 0, tab))
		}
		return in.pad(flags, mkStr(out))
	}
	return concatStr("%!"+string(verb)+"(string=", concatStr(v, ")"))
}

func (in *Interp) hexDigit(b Value, sh int, tab string) Value {
	if x, ok := b.(uint64); ok {
		return uint64(tab[(x>>uint(sh))&15])
	}
	t := in.ctx.Extract(b.(*Term), sh+3, sh)
	z := in.ctx.ZExt(t, 8)
	a := uint64('a')
	if tab[10] == 'A' {
		a = 'A'
	}
	return lower(in.ctx.Ite(in.ctx.Cmp(OUlt, z, in.ctx.BV(10, 8)), in.ctx.Bin(OAdd, z, in.ctx.BV('0', 8)), in.ctx.Bin(OAdd, z, in.ctx.BV(a-10, 8))))
}
