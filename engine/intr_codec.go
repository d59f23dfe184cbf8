package main

// Models of encoding/json and protobuf. A document is a tree; fully concrete
// trees are rendered and parsed as real text (real wire bytes), trees with
// symbolic leaves are represented by an opaque blob that is the same for equal
// trees, different for different ones and never equal to anything else.

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type jkind int

const (
	jNull jkind = iota
	jBool
	jInt // integer of width w
	jNum // number with concrete text
	jStr
	jB64
	jArr
	jObj
	jOpq // value of a type with symbolic content and a custom encoding
)

type jfield struct {
	name Value
	node *jnode
}

type jnode struct {
	kind   jkind
	v      Value // bool, integer, string
	signed bool
	text   string
	b      []Value
	arr    []*jnode
	obj    []jfield
	t      types.Type
}

type blobEnt struct {
	kind string
	b    string
	n    any
}

func (in *Interp) blobs() []*blobEnt {
	b, _ := in.side["blobs"].([]*blobEnt)
	return b
}

func (in *Interp) addBlob(e *blobEnt) {
	in.side["blobs"] = append(append([]*blobEnt(nil), in.blobs()...), e)
}

// blobOf finds the registered document with exactly these bytes.
func (in *Interp) blobOf(kind string, b string) *blobEnt {
	for _, e := range in.blobs() {
		if strings.HasPrefix(e.kind, kind) && e.b == b {
			return e
		}
	}
	return nil
}

const blobMagic = "\x00\x01BLOB"

func (in *Interp) mayBlob(kind string, n any, eq func(a, b any) Value) string {
	for _, e := range in.blobs() {
		if e.kind == kind && in.branch(eq(e.n, n)) {
			return e.b
		}
	}
	b := fmt.Sprintf("%s%s%06d\x00", blobMagic, kind, len(in.blobs()))
	in.addBlob(&blobEnt{kind, b, n})
	return b
}

func (n *jnode) concrete() bool {
	switch n.kind {
	case jBool, jInt, jStr:
		switch n.v.(type) {
		case *Term, *SymStr:
			return false
		}
	case jB64:
		_, ok := concreteBytes(n.b)
		return ok
	case jArr:
		for _, e := range n.arr {
			if !e.concrete() {
				return false
			}
		}
	case jObj:
		for _, e := range n.obj {
			if _, ok := e.name.(string); !ok || !e.node.concrete() {
				return false
			}
		}
	case jOpq:
		return false
	}
	return true
}

func (n *jnode) native() any {
	switch n.kind {
	case jBool:
		return n.v
	case jInt:
		if n.signed {
			return json.Number(strconv.FormatInt(int64(n.v.(uint64)), 10))
		}
		return json.Number(strconv.FormatUint(n.v.(uint64), 10))
	case jNum:
		return json.Number(n.text)
	case jStr:
		return n.v
	case jB64:
		b, _ := concreteBytes(n.b)
		return base64.StdEncoding.EncodeToString(b)
	case jArr:
		r := make([]any, len(n.arr))
		for i, e := range n.arr {
			r[i] = e.native()
		}
		return r
	}
	return nil
}

func (n *jnode) render(sb *bytes.Buffer) {
	switch n.kind {
	case jObj:
		sb.WriteByte('{')
		for i, f := range n.obj {
			if i > 0 {
				sb.WriteByte(',')
			}
			k, _ := json.Marshal(f.name.(string))
			sb.Write(k)
			sb.WriteByte(':')
			f.node.render(sb)
		}
		sb.WriteByte('}')
	case jArr:
		sb.WriteByte('[')
		for i, e := range n.arr {
			if i > 0 {
				sb.WriteByte(',')
			}
			e.render(sb)
		}
		sb.WriteByte(']')
	default:
		b, _ := json.Marshal(n.native())
		sb.Write(b)
	}
}

func (in *Interp) jeq(a, b *jnode) Value {
	if a.kind != b.kind {
		// a concrete number against an integer
		if a.kind == jNum && b.kind == jInt || a.kind == jInt && b.kind == jNum {
			if a.kind == jNum {
				a, b = b, a
			}
			x, ok := new(big.Int).SetString(b.text, 10)
			if !ok {
				return false
			}
			return in.eq(a.v, new(big.Int).And(x, new(big.Int).SetUint64(^uint64(0))).Uint64())
		}
		if a.kind == jStr && b.kind == jB64 || a.kind == jB64 && b.kind == jStr {
			if a.kind == jStr {
				a, b = b, a
			}
			s, ok := b.v.(string)
			if !ok {
				return false
			}
			d, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				return false
			}
			return in.bytesEq(a.b, bytesToSlice(d).s)
		}
		return false
	}
	switch a.kind {
	case jNull:
		return true
	case jBool, jInt, jStr:
		return in.eq(a.v, b.v)
	case jNum:
		return a.text == b.text
	case jB64:
		return in.bytesEq(a.b, b.b)
	case jArr:
		if len(a.arr) != len(b.arr) {
			return false
		}
		var r Value = true
		for i := range a.arr {
			r = in.and(r, in.jeq(a.arr[i], b.arr[i]))
			if r == false {
				return r
			}
		}
		return r
	case jObj:
		if len(a.obj) != len(b.obj) {
			return false
		}
		var r Value = true
		for i := range a.obj {
			r = in.and(r, in.and(in.eq(a.obj[i].name, b.obj[i].name), in.jeq(a.obj[i].node, b.obj[i].node)))
			if r == false {
				return r
			}
		}
		return r
	case jOpq:
		return types.Identical(a.t, b.t) && in.deepEq(a.v, b.v)
	}
	return false
}

// deepEq compares object graphs syntactically (used for opaque leaves).
func (in *Interp) deepEq(a, b Value) bool {
	switch x := a.(type) {
	case *Value:
		y, ok := b.(*Value)
		if !ok || (x == nil) != (y == nil) {
			return false
		}
		return x == nil || x == y || in.deepEq(*x, *y)
	case Struct:
		y := b.(Struct)
		for i := range x {
			if !in.deepEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case SliceV:
		y := b.(SliceV)
		if len(x.s) != len(y.s) {
			return false
		}
		for i := range x.s {
			if !in.deepEq(x.s[i], y.s[i]) {
				return false
			}
		}
		return true
	case *Term:
		return a == b
	}
	return a == b
}

func deepCopy(v Value) Value {
	switch x := v.(type) {
	case *Value:
		if x == nil {
			return x
		}
		p := new(Value)
		*p = deepCopy(*x)
		return p
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = deepCopy(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = deepCopy(x[i])
		}
		return r
	case SliceV:
		if x.s == nil {
			return x
		}
		r := make([]Value, len(x.s))
		for i := range x.s {
			r[i] = deepCopy(x.s[i])
		}
		return SliceV{s: r, n: x.n}
	}
	return v
}

func (in *Interp) isMarshaler(t types.Type, m string) *ssa.Function {
	switch t.Underlying().(type) {
	case *types.Interface:
		return nil
	}
	f := in.eng.lookupMethod(t, nil, m)
	return f
}

func isBigInt(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if ok {
		t = p.Elem()
	}
	return t.String() == "math/big.Int"
}

type jstructField struct {
	name      string
	idx       []int
	t         types.Type
	omitempty bool
	asString  bool
}

func jsonFields(st *types.Struct, prefix []int) []jstructField {
	var out []jstructField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		idx := append(append([]int(nil), prefix...), i)
		if f.Anonymous() && name == "" {
			u := f.Type()
			if p, ok := u.Underlying().(*types.Pointer); ok {
				u = p.Elem()
			}
			if s, ok := u.Underlying().(*types.Struct); ok {
				out = append(out, jsonFields(s, idx)...)
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		out = append(out, jstructField{name, idx, f.Type(), strings.Contains(opts, "omitempty"), strings.Contains(opts, "string")})
	}
	if prefix == nil { // shallower fields win
		best := map[string]int{}
		for _, f := range out {
			if d, ok := best[f.name]; !ok || len(f.idx) < d {
				best[f.name] = len(f.idx)
			}
		}
		var r []jstructField
		seen := map[string]bool{}
		for _, f := range out {
			if len(f.idx) == best[f.name] && !seen[f.name] {
				seen[f.name] = true
				r = append(r, f)
			}
		}
		return r
	}
	return out
}

func (in *Interp) jsonEncode(g *Gor, t types.Type, v Value, depth int) *jnode {
	if depth > 60 {
		in.unsupported("json: nesting too deep")
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		i := v.(Iface)
		if i.t == nil {
			return &jnode{kind: jNull}
		}
		return in.jsonEncode(g, i.t, i.v, depth+1)
	}
	if isBigInt(t) {
		if _, isp := t.(*types.Pointer); isp {
			p := v.(*Value)
			if p == nil {
				return &jnode{kind: jNull}
			}
			if x, ok := valBig(p); ok {
				return &jnode{kind: jNum, text: x.String()}
			}
			return &jnode{kind: jOpq, t: t, v: deepCopy(v)}
		}
	}
	if p, isp := t.Underlying().(*types.Pointer); isp {
		if isNilPtr(v) {
			return &jnode{kind: jNull}
		}
		if m := in.isMarshaler(t, "MarshalJSON"); m != nil {
			return in.jsonCustom(g, m, v)
		}
		return in.jsonEncode(g, p.Elem(), *v.(*Value), depth+1)
	}
	if m := in.isMarshaler(t, "MarshalJSON"); m != nil {
		return in.jsonCustom(g, m, v)
	}
	if _, isn := t.(*types.Named); isn {
		// addressable values use pointer methods
		if m := in.isMarshaler(types.NewPointer(t), "MarshalJSON"); m != nil {
			p := new(Value)
			*p = copyVal(v)
			return in.jsonCustom(g, m, p)
		}
		if m := in.isMarshaler(t, "MarshalText"); m != nil {
			r := in.callOn(g, &Closure{fn: m}, []Value{v}).(Tuple)
			return &jnode{kind: jStr, v: mkStr(in.byteSlice(r[0]))}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &jnode{kind: jBool, v: v}
		case u.Info()&types.IsInteger != 0:
			w, s := intWidth(t)
			if tm, ok := v.(*Term); ok && w < 64 {
				if s {
					v = lower(in.ctx.SExt(tm, 64))
				} else {
					v = lower(in.ctx.ZExt(tm, 64))
				}
			} else if c, ok := v.(uint64); ok && s && w < 64 {
				v = uint64(int64(c<<(64-uint(w))) >> (64 - uint(w)))
			}
			return &jnode{kind: jInt, v: v, signed: s}
		case u.Info()&types.IsFloat != 0:
			f, ok := v.(float64)
			if !ok {
				in.unsupported("json of a symbolic float")
			}
			b, _ := json.Marshal(f)
			return &jnode{kind: jNum, text: string(b)}
		case u.Info()&types.IsString != 0:
			return &jnode{kind: jStr, v: validUTF8(v)}
		}
	case *types.Struct:
		n := &jnode{kind: jObj}
		for _, f := range jsonFields(u, nil) {
			fv := v
			ft := t
			skip := false
			for _, ix := range f.idx {
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					if isNilPtr(fv) {
						skip = true
						break
					}
					fv = *fv.(*Value)
					ft = p.Elem()
				}
				fv = fv.(Struct)[ix]
				ft = ft.Underlying().(*types.Struct).Field(ix).Type()
			}
			if skip {
				continue
			}
			if f.omitempty && in.jsonEmpty(f.t, fv) {
				continue
			}
			if f.asString {
				in.unsupported("json string option")
			}
			n.obj = append(n.obj, jfield{f.name, in.jsonEncode(g, f.t, fv, depth+1)})
		}
		return n
	case *types.Slice:
		s := v.(SliceV)
		if s.s == nil && s.n == nil {
			return &jnode{kind: jNull}
		}
		if s.n != nil {
			in.unsupported("json of a symbolic-length slice")
		}
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 {
			return &jnode{kind: jB64, b: append([]Value{}, s.s...)}
		}
		n := &jnode{kind: jArr}
		for _, e := range s.s {
			n.arr = append(n.arr, in.jsonEncode(g, u.Elem(), e, depth+1))
		}
		return n
	case *types.Array:
		n := &jnode{kind: jArr}
		for _, e := range v.(Array) {
			n.arr = append(n.arr, in.jsonEncode(g, u.Elem(), e, depth+1))
		}
		return n
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return &jnode{kind: jNull}
		}
		n := &jnode{kind: jObj}
		for _, e := range m.ents {
			if e.deleted {
				continue
			}
			var k Value
			if isString(u.Key()) {
				k = e.k
			} else if w, s := intWidth(u.Key()); w > 0 {
				c := in.concretize(e.k)
				if s {
					k = strconv.FormatInt(int64(c), 10)
				} else {
					k = strconv.FormatUint(c, 10)
				}
			} else {
				in.unsupported("json map key %s", u.Key())
			}
			if mt := in.isMarshaler(u.Key(), "MarshalText"); mt != nil {
				r := in.callOn(g, &Closure{fn: mt}, []Value{e.k}).(Tuple)
				k = mkStr(in.byteSlice(r[0]))
			}
			n.obj = append(n.obj, jfield{k, in.jsonEncode(g, u.Elem(), e.v, depth+1)})
		}
		for i := 1; i < len(n.obj); i++ {
			for j := i; j > 0 && in.branch(in.strLess(n.obj[j].name, n.obj[j-1].name)); j-- {
				n.obj[j], n.obj[j-1] = n.obj[j-1], n.obj[j]
			}
		}
		return n
	}
	in.unsupported("json of %s", t)
	return nil
}

func validUTF8(v Value) Value {
	if s, ok := v.(string); ok && !utf8.ValidString(s) {
		return strings.ToValidUTF8(s, "\ufffd")
	}
	return v
}

func (in *Interp) jsonEmpty(t types.Type, v Value) bool {
	switch x := v.(type) {
	case bool, uint64, float64, string:
		return x == zero(t)
	case *Term:
		if x.w == SBool {
			return !in.branch(x)
		}
		return in.branch(in.eq(x, uint64(0)))
	case *SymStr:
		return len(x.b) == 0
	case SliceV:
		return len(x.s) == 0
	case *MapV:
		return x == nil || x.live == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	}
	return false
}

type jsonFail struct{ err Iface }

func (in *Interp) jsonCustom(g *Gor, m *ssa.Function, recv Value) *jnode {
	r := in.callOn(g, &Closure{fn: m}, []Value{recv}).(Tuple)
	if e := r[1].(Iface); e.t != nil {
		panic(jsonFail{e})
	}
	n, ok := in.jsonParse(in.byteSlice(r[0]))
	if !ok {
		panic(jsonFail{in.mkError("json: error calling MarshalJSON: invalid output")})
	}
	return n
}

// jsonParse turns document bytes into a tree.
func (in *Interp) jsonParse(b []Value) (*jnode, bool) {
	c, ok := concreteBytes(b)
	if !ok {
		// a document with symbolic bytes: it may be any registered one
		for _, e := range in.blobs() {
			if strings.HasPrefix(e.kind, "J") && len(e.b) == len(b) && in.branch(in.bytesEq(bytesToSlice([]byte(e.b)).s, b)) {
				return e.n.(*jnode), true
			}
		}
		if in.side["symjson"] == true {
			return nil, false // harness declared such bytes malformed
		}
		in.unsupported("json document with symbolic bytes")
	}
	if e := in.blobOf("J", string(bytes.Trim(c, " \t\r\n"))); e != nil {
		return e.n.(*jnode), true
	}
	if k := bytes.Index(c, []byte(blobMagic)); k > 0 && len(bytes.Trim(c[:k], " \t\r\n")) > 0 {
		in.unsupported("json document built around a symbolic one")
	}
	if !json.Valid(c) {
		return nil, false
	}
	d := json.NewDecoder(bytes.NewReader(c))
	d.UseNumber()
	n, err := jsonRead(d)
	return n, err == nil
}

func jsonRead(d *json.Decoder) (*jnode, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return &jnode{kind: jNull}, nil
	case bool:
		return &jnode{kind: jBool, v: x}, nil
	case string:
		return &jnode{kind: jStr, v: x}, nil
	case json.Number:
		return &jnode{kind: jNum, text: x.String()}, nil
	case json.Delim:
		switch x {
		case '[':
			n := &jnode{kind: jArr}
			for d.More() {
				e, err := jsonRead(d)
				if err != nil {
					return nil, err
				}
				n.arr = append(n.arr, e)
			}
			_, err := d.Token()
			return n, err
		case '{':
			n := &jnode{kind: jObj}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				e, err := jsonRead(d)
				if err != nil {
					return nil, err
				}
				n.obj = append(n.obj, jfield{k.(string), e})
			}
			_, err := d.Token()
			return n, err
		}
	}
	return nil, fmt.Errorf("unexpected token")
}

func (in *Interp) jsonRender(n *jnode, indent string, prefix string) []Value {
	kind := "J" + prefix + "|" + indent
	if n.concrete() {
		for _, e := range in.blobs() {
			if e.kind == kind && in.branch(in.jeq(e.n.(*jnode), n)) {
				return bytesToSlice([]byte(e.b)).s
			}
		}
		var sb bytes.Buffer
		n.render(&sb)
		out := sb.Bytes()
		if indent != "" || prefix != "" {
			var o bytes.Buffer
			json.Indent(&o, out, prefix, indent)
			out = o.Bytes()
		}
		if in.blobOf(kind, string(out)) == nil {
			in.addBlob(&blobEnt{kind, string(out), n})
		}
		return bytesToSlice(out).s
	}
	b := in.mayBlob(kind, n, func(a, b any) Value { return in.jeq(a.(*jnode), b.(*jnode)) })
	return bytesToSlice([]byte(b)).s
}

func (in *Interp) jsonMarshal(g *Gor, v Value, prefix, indent string) (res Value) {
	defer func() {
		if x := recover(); x != nil {
			if f, ok := x.(jsonFail); ok {
				res = Tuple{SliceV{}, f.err}
				return
			}
			panic(x)
		}
	}()
	i := v.(Iface)
	var n *jnode
	if i.t == nil {
		n = &jnode{kind: jNull}
	} else {
		n = in.jsonEncode(g, i.t, i.v, 0)
	}
	return Tuple{SliceV{s: in.jsonRender(n, indent, prefix)}, Iface{}}
}

type jdec struct {
	in  *Interp
	g   *Gor
	err Iface

	strict bool // unknown members are errors
}

func (d *jdec) mismatch(what string, t types.Type) {
	if d.err.t == nil {
		d.err = d.in.mkError("json: cannot unmarshal " + what + " into Go value of type " + t.String())
	}
}

func jname(n *jnode) string {
	switch n.kind {
	case jBool:
		return "bool"
	case jInt, jNum:
		return "number"
	case jStr, jB64:
		return "string"
	case jArr:
		return "array"
	case jObj:
		return "object"
	}
	return "null"
}

func (d *jdec) into(n *jnode, t types.Type, p *Value) {
	in := d.in
	// null
	if n.kind == jNull {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			in.storeTo(p, zero(t))
		}
		return
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.kind == jOpq && types.Identical(n.t, t) {
			in.storeTo(p, deepCopy(n.v))
			return
		}
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(pt.Elem())
			in.storeTo(p, q)
		}
		d.into(n, pt.Elem(), q)
		return
	}
	if isBigInt(t) {
		if n.kind == jOpq {
			in.storeTo(p, copyVal(*deepCopy(n.v).(*Value)))
			return
		}
		if n.kind == jNum || n.kind == jInt {
			txt := n.text
			if n.kind == jInt {
				c := in.concretize(n.v)
				txt = strconv.FormatUint(c, 10)
				if n.signed {
					txt = strconv.FormatInt(int64(c), 10)
				}
			}
			if x, ok := new(big.Int).SetString(txt, 10); ok {
				in.storeTo(p, *bigVal(x))
				return
			}
		}
		if d.err.t == nil {
			d.err = in.mkError("math/big: cannot unmarshal into a *big.Int")
		}
		return
	}
	if _, isn := t.(*types.Named); isn {
		if m := in.isMarshaler(types.NewPointer(t), "UnmarshalJSON"); m != nil {
			r := in.callOn(d.g, &Closure{fn: m}, []Value{p, SliceV{s: in.jsonRender(n, "", "")}})
			if e := r.(Iface); e.t != nil && d.err.t == nil {
				d.err = e
			}
			return
		}
		if m := in.isMarshaler(types.NewPointer(t), "UnmarshalText"); m != nil {
			if n.kind != jStr {
				d.mismatch(jname(n), t)
				return
			}
			r := in.callOn(d.g, &Closure{fn: m}, []Value{p, SliceV{s: strBytes(n.v)}})
			if e := r.(Iface); e.t != nil && d.err.t == nil {
				d.err = e
			}
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			d.mismatch(jname(n), t)
			return
		}
		switch n.kind {
		case jStr:
			in.storeTo(p, Iface{t: types.Typ[types.String], v: n.v})
		case jBool:
			in.storeTo(p, Iface{t: types.Typ[types.Bool], v: n.v})
		case jNum:
			f, err := strconv.ParseFloat(n.text, 64)
			if err != nil {
				d.mismatch("number", t)
				return
			}
			in.storeTo(p, Iface{t: types.Typ[types.Float64], v: f})
		case jArr:
			q := new(Value)
			lt := types.NewSlice(t)
			*q = SliceV{s: []Value{}}
			d.into(n, lt, q)
			in.storeTo(p, Iface{t: lt, v: *q})
		case jObj:
			q := new(Value)
			mt := types.NewMap(types.Typ[types.String], t)
			*q = (*MapV)(nil)
			d.into(n, mt, q)
			in.storeTo(p, Iface{t: mt, v: *q})
		default:
			in.unsupported("json into interface{}")
		}
		return
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0 && n.kind == jBool:
			in.storeTo(p, n.v)
			return
		case u.Info()&types.IsString != 0 && n.kind == jStr:
			in.storeTo(p, n.v)
			return
		case u.Info()&types.IsString != 0 && n.kind == jB64:
			b, ok := concreteBytes(n.b)
			if !ok {
				in.unsupported("json: base64 of symbolic bytes read as a string")
			}
			in.storeTo(p, base64.StdEncoding.EncodeToString(b))
			return
		case u.Info()&types.IsInteger != 0 && (n.kind == jInt || n.kind == jNum):
			w, s := intWidth(t)
			var v Value
			if n.kind == jNum {
				if s {
					x, err := strconv.ParseInt(n.text, 10, w)
					if err != nil {
						d.mismatch("number "+n.text, t)
						return
					}
					v = uint64(x) & mask(w)
				} else {
					x, err := strconv.ParseUint(n.text, 10, w)
					if err != nil {
						d.mismatch("number "+n.text, t)
						return
					}
					v = x
				}
			} else {
				x := in.bv(n.v, 64)
				var fits Value = true
				tr := in.ctx.Extract(x, w-1, 0)
				if w < 64 {
					if s {
						fits = lower(in.ctx.Eq(in.ctx.SExt(tr, 64), x))
					} else {
						fits = lower(in.ctx.Eq(in.ctx.ZExt(tr, 64), x))
					}
				}
				if n.signed != s { // sign bit must be clear
					fits = in.and(fits, lower(in.ctx.Cmp(OSle, in.ctx.BV(0, 64), x)))
				}
				if !in.branch(fits) {
					d.mismatch("number", t)
					return
				}
				v = lower(tr)
			}
			in.storeTo(p, v)
			return
		case u.Info()&types.IsFloat != 0 && n.kind == jNum:
			f, err := strconv.ParseFloat(n.text, 64)
			if err == nil {
				in.storeTo(p, f)
				return
			}
		}
		d.mismatch(jname(n), t)
		return
	case *types.Slice:
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 && (n.kind == jB64 || n.kind == jStr) {
			// the bytes go where the slice has room for them
			fill := func(b []Value) {
				old, _ := (*p).(SliceV)
				if old.n != nil || cap(old.s) < len(b) || cap(old.s) == 0 {
					in.storeTo(p, SliceV{s: append([]Value{}, b...)})
					return
				}
				sl := SliceV{s: old.s[:len(b)]}
				for i := range b {
					in.storeTo(&sl.s[i], b[i])
				}
				in.storeTo(p, sl)
			}
			if n.kind == jB64 {
				fill(n.b)
				return
			}
			s, ok := n.v.(string)
			if !ok {
				in.unsupported("json: symbolic string read as base64")
			}
			b, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				if d.err.t == nil {
					d.err = in.mkError(err.Error())
				}
				return
			}
			fill(bytesToSlice(b).s)
			return
		}
		if n.kind != jArr {
			d.mismatch(jname(n), t)
			return
		}
		old, _ := (*p).(SliceV)
		var els []Value
		if old.n == nil && cap(old.s) >= len(n.arr) && cap(old.s) > 0 { // existing elements are decoded over in place
			els = old.s[:len(n.arr)]
			for i := range els {
				if els[i] == nil {
					els[i] = zero(u.Elem())
				}
			}
		} else {
			els = make([]Value, len(n.arr))
			for i := range els {
				if i < len(old.s) {
					els[i] = copyVal(old.s[i])
				} else {
					els[i] = zero(u.Elem())
				}
			}
		}
		sl := SliceV{s: els}
		in.storeTo(p, sl)
		for i := range els {
			d.into(n.arr[i], u.Elem(), &els[i])
		}
		return
	case *types.Array:
		if n.kind != jArr {
			d.mismatch(jname(n), t)
			return
		}
		a := (*p).(Array)
		for i := range a {
			if i < len(n.arr) {
				d.into(n.arr[i], u.Elem(), &a[i])
			} else {
				in.storeTo(&a[i], zero(u.Elem()))
			}
		}
		return
	case *types.Map:
		if n.kind != jObj {
			d.mismatch(jname(n), t)
			return
		}
		m, _ := (*p).(*MapV)
		if m == nil {
			m = in.newMap()
			in.storeTo(p, m)
		}
		for _, f := range n.obj {
			ev := new(Value)
			*ev = zero(u.Elem())
			d.into(f.node, u.Elem(), ev)
			k := f.name
			if mt := in.isMarshaler(types.NewPointer(u.Key()), "UnmarshalText"); mt != nil {
				kp := new(Value)
				*kp = zero(u.Key())
				r := in.callOn(d.g, &Closure{fn: mt}, []Value{kp, SliceV{s: strBytes(k)}})
				if e := r.(Iface); e.t != nil {
					if d.err.t == nil {
						d.err = e
					}
					continue
				}
				k = *kp
			} else if w, s := intWidth(u.Key()); w > 0 {
				ks := in.str(k)
				if s {
					x, err := strconv.ParseInt(ks, 10, w)
					if err != nil {
						d.mismatch("number "+ks, u.Key())
						continue
					}
					k = uint64(x) & mask(w)
				} else {
					x, err := strconv.ParseUint(ks, 10, w)
					if err != nil {
						d.mismatch("number "+ks, u.Key())
						continue
					}
					k = x
				}
			} else if !isString(u.Key()) {
				in.unsupported("json map key %s", u.Key())
			}
			in.mapSet(m, k, *ev)
		}
		return
	case *types.Struct:
		if n.kind != jObj {
			d.mismatch(jname(n), t)
			return
		}
		fs := jsonFields(u, nil)
		for _, f := range n.obj {
			name, ok := f.name.(string)
			if !ok {
				in.unsupported("json: symbolic member name")
			}
			fi := -1
			for i := range fs {
				if fs[i].name == name {
					fi = i
					break
				}
			}
			if fi < 0 {
				for i := range fs {
					if strings.EqualFold(fs[i].name, name) {
						fi = i
						break
					}
				}
			}
			if fi < 0 {
				if d.strict && d.err.t == nil {
					d.err = in.mkError("json: unknown field " + strconv.Quote(name))
				}
				continue
			}
			q := p
			ft := t
			for _, ix := range fs[fi].idx {
				if pt, ok := ft.Underlying().(*types.Pointer); ok {
					r, _ := (*q).(*Value)
					if r == nil {
						r = new(Value)
						*r = zero(pt.Elem())
						in.storeTo(q, r)
					}
					q = r
					ft = pt.Elem()
				}
				q = &(*q).(Struct)[ix]
				ft = ft.Underlying().(*types.Struct).Field(ix).Type()
			}
			d.into(f.node, ft, q)
		}
		return
	}
	in.unsupported("json into %s", t)
}

func (in *Interp) jsonInto(g *Gor, n *jnode, target Iface) Iface {
	return in.jsonIntoStrict(g, n, target, false)
}

func (in *Interp) jsonIntoStrict(g *Gor, n *jnode, target Iface, strict bool) Iface {
	if target.t == nil || isNilPtr(target.v) {
		return in.mkError("json: Unmarshal(nil)")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		return in.mkError("json: Unmarshal(non-pointer " + target.t.String() + ")")
	}
	d := &jdec{in: in, g: g, strict: strict}
	d.into(n, pt.Elem(), target.v.(*Value))
	return d.err
}

func jsonIntrinsics(reg regFn) {
	reg("encoding/json.Marshal", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return in.jsonMarshal(g, a[0], "", "")
	}))
	reg("encoding/json.MarshalIndent", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return in.jsonMarshal(g, a[0], in.str(a[1]), in.str(a[2]))
	}))
	reg("encoding/json.Unmarshal", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n, ok := in.jsonParse(in.byteSlice(a[0]))
		if !ok {
			return in.mkError("invalid JSON document")
		}
		return in.jsonInto(g, n, a[1].(Iface))
	}))
	reg("encoding/json.Valid", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		_, ok := in.jsonParse(in.byteSlice(a[0]))
		return ok
	}))
	// symbolic document bytes are taken as malformed from here on
	reg(rtPkg+".RawIsMalformed", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.side["symjson"] = true
		return nil
	}))
	reg("encoding/json.NewDecoder", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		p := new(Value)
		*p = zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		in.side[fmt.Sprintf("jd:%p", p)] = a[0]
		return p
	}))
	reg("(*encoding/json.Decoder).DisallowUnknownFields", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.side[fmt.Sprintf("jds:%p", in.ptr(a[0]))] = true
		return nil
	}))
	reg("(*encoding/json.Decoder).UseNumber", noop)
	reg("(*encoding/json.Decoder).More", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.unsupported("json.Decoder.More")
		return false
	}))
	reg("(*encoding/json.Decoder).Decode", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		k := fmt.Sprintf("jd:%p", in.ptr(a[0]))
		r := in.side[k].(Value).(Iface)
		buf, rerr := in.readAll(g, r)
		if rerr.t != nil {
			return rerr
		}
		// what an earlier value left comes first
		if old, ok := in.side["r"+k].([]Value); ok {
			buf = append(append([]Value{}, old...), buf...)
		}
		in.side["r"+k] = []Value(nil)
		if c, ok := concreteBytes(buf); ok {
			lead := len(c) - len(bytes.TrimLeft(c, " \t\r\n"))
			end := -1
			for _, e := range in.blobs() {
				if strings.HasPrefix(e.kind, "J") && strings.HasPrefix(string(c[lead:]), e.b) {
					end = lead + len(e.b)
				}
			}
			if end < 0 {
				d := json.NewDecoder(bytes.NewReader(c))
				var raw json.RawMessage
				if err := d.Decode(&raw); err != nil {
					if err.Error() == "EOF" {
						return *in.global(in.eng.pkgs["io"].Var("EOF"))
					}
					if bytes.Contains(c, []byte(blobMagic)) && len(bytes.Trim(c[:bytes.Index(c, []byte(blobMagic))], " \t\r\n")) > 0 {
						in.unsupported("json document built around a symbolic one")
					}
					return in.mkError("json: " + err.Error())
				}
				end = int(d.InputOffset())
			}
			in.side["r"+k] = buf[end:]
			buf = buf[lead:end]
		}
		n, ok := in.jsonParse(buf)
		if !ok {
			return in.mkError("invalid JSON document")
		}
		return in.jsonIntoStrict(g, n, a[1].(Iface), in.side["jds"+k[2:]] == true)
	}))
	reg("encoding/json.NewEncoder", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		p := new(Value)
		*p = zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		in.side[fmt.Sprintf("je:%p", p)] = a[0]
		return p
	}))
	reg("(*encoding/json.Encoder).SetIndent", noop)
	reg("(*encoding/json.Encoder).Encode", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		w := in.side[fmt.Sprintf("je:%p", in.ptr(a[0]))].(Value).(Iface)
		r := in.jsonMarshal(g, a[1], "", "").(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return e
		}
		b := append(append([]Value{}, r[0].(SliceV).s...), uint64('\n'))
		return in.callMethod(g, w, "Write", SliceV{s: b}).(Tuple)[1]
	}))
}

// readAll drains an io.Reader by calling its real Read method.
func (in *Interp) readAll(g *Gor, r Iface) ([]Value, Iface) {
	var out []Value
	for i := 0; i < 200; i++ {
		size := 512
		if i >= 100 {
			size = 1 << 16
		}
		p := make([]Value, size)
		for j := range p {
			p[j] = uint64(0)
		}
		res := in.callMethod(g, r, "Read", SliceV{s: p}).(Tuple)
		n := int(in.concretize(res[0]))
		out = append(out, p[:n]...)
		if e := res[1].(Iface); e.t != nil {
			eof := *in.global(in.eng.pkgs["io"].Var("EOF"))
			if in.branch(in.eq(e, eof)) {
				return out, Iface{}
			}
			return out, e
		}
	}
	in.unsupported("reader does not end")
	return nil, Iface{}
}

// ---------- protobuf

type pfield struct {
	num      int
	name     string
	rep      bool
	msg      bool
	wire     string
	idx      int
	t        types.Type
	isString bool
	oneof    bool
}

func protoFields(st *types.Struct) []pfield {
	var out []pfield
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i)).Get("protobuf")
		if tag == "" {
			if reflect.StructTag(st.Tag(i)).Get("protobuf_oneof") != "" {
				out = append(out, pfield{oneof: true, idx: i, num: 1 << 20})
			}
			continue
		}
		ps := strings.Split(tag, ",")
		num, _ := strconv.Atoi(ps[1])
		f := pfield{num: num, wire: ps[0], rep: ps[2] == "rep", idx: i, t: st.Field(i).Type(), name: st.Field(i).Name()}
		e := f.t
		if f.rep {
			e = e.Underlying().(*types.Slice).Elem()
		}
		if p, ok := e.Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				f.msg = true
			}
		}
		f.isString = isString(e)
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].num < out[j].num })
	return out
}

// pnode is a protobuf message: fields in number order.
type pnode struct{ f []pval }
type pval struct {
	num  int
	wire int // 0 varint, 2 bytes
	v    Value
	b    []Value
	sub  *pnode
}

func (n *pnode) concrete() bool {
	for _, f := range n.f {
		switch {
		case f.sub != nil:
			if !f.sub.concrete() {
				return false
			}
		case f.wire == 2:
			if _, ok := concreteBytes(f.b); !ok {
				return false
			}
		default:
			if _, ok := f.v.(uint64); !ok {
				return false
			}
		}
	}
	return true
}

func (n *pnode) render() []byte {
	var out []byte
	for _, f := range n.f {
		out = binary.AppendUvarint(out, uint64(f.num)<<3|uint64(f.wire))
		if f.wire == 0 {
			out = binary.AppendUvarint(out, f.v.(uint64))
			continue
		}
		var b []byte
		if f.sub != nil {
			b = f.sub.render()
		} else {
			b, _ = concreteBytes(f.b)
		}
		out = binary.AppendUvarint(out, uint64(len(b)))
		out = append(out, b...)
	}
	return out
}

func (in *Interp) peq(a, b *pnode) Value {
	if len(a.f) != len(b.f) {
		return false
	}
	var r Value = true
	for i := range a.f {
		x, y := a.f[i], b.f[i]
		if x.num != y.num || x.wire != y.wire || (x.sub == nil) != (y.sub == nil) {
			return false
		}
		switch {
		case x.sub != nil:
			r = in.and(r, in.peq(x.sub, y.sub))
		case x.wire == 2:
			r = in.and(r, in.bytesEq(x.b, y.b))
		default:
			r = in.and(r, in.eq(x.v, y.v))
		}
		if r == false {
			return r
		}
	}
	return r
}

// protoEncode builds the tree of a message struct; ok is false for a string that is not UTF-8.
func (in *Interp) protoEncode(t types.Type, s Struct) (*pnode, bool) {
	n := &pnode{}
	one := func(f pfield, t types.Type, v Value, keepZero bool) bool {
		switch {
		case f.msg:
			p := v.(*Value)
			if p == nil {
				if keepZero {
					n.f = append(n.f, pval{num: f.num, wire: 2, sub: &pnode{}})
				}
				return true
			}
			sub, ok := in.protoEncode(t.Underlying().(*types.Pointer).Elem(), (*p).(Struct))
			if !ok {
				return false
			}
			n.f = append(n.f, pval{num: f.num, wire: 2, sub: sub})
		case f.isString:
			if strLen(v) == 0 && !keepZero {
				return true
			}
			if c, ok := v.(string); ok && !utf8.ValidString(c) {
				return false
			}
			n.f = append(n.f, pval{num: f.num, wire: 2, b: append([]Value{}, strBytes(v)...)})
		case f.wire == "bytes":
			b := v.(SliceV)
			if len(b.s) == 0 && !keepZero {
				return true
			}
			n.f = append(n.f, pval{num: f.num, wire: 2, b: append([]Value{}, b.s...)})
		case f.wire == "varint":
			if b, ok := v.(bool); ok {
				v = uint64(0)
				if b {
					v = uint64(1)
				}
			} else if tm, ok := v.(*Term); ok && tm.w == SBool {
				v = lower(in.ctx.Ite(tm, in.ctx.BV(1, 64), in.ctx.BV(0, 64)))
			} else if w, sg := intWidth(t); w < 64 {
				if sg {
					v = lower(in.ctx.SExt(in.bv(v, w), 64))
				} else {
					v = lower(in.ctx.ZExt(in.bv(v, w), 64))
				}
			}
			if !keepZero && in.branch(in.eq(v, uint64(0))) {
				return true
			}
			n.f = append(n.f, pval{num: f.num, wire: 0, v: v})
		default:
			in.unsupported("protobuf wire type %s", f.wire)
		}
		return true
	}
	for _, f := range protoFields(t.Underlying().(*types.Struct)) {
		if f.oneof {
			i := s[f.idx].(Iface)
			if i.t == nil {
				continue
			}
			w := i.t.Underlying().(*types.Pointer).Elem()
			for _, g := range protoFields(w.Underlying().(*types.Struct)) {
				if !one(g, g.t, (*i.v.(*Value)).(Struct)[g.idx], true) {
					return nil, false
				}
			}
			continue
		}
		v := s[f.idx]
		if f.rep {
			et := f.t.Underlying().(*types.Slice).Elem()
			if f.wire == "varint" {
				in.unsupported("packed protobuf field")
			}
			for _, e := range v.(SliceV).s {
				if !one(f, et, e, true) {
					return nil, false
				}
			}
			continue
		}
		if !one(f, f.t, v, false) {
			return nil, false
		}
	}
	sort.SliceStable(n.f, func(i, j int) bool { return n.f[i].num < n.f[j].num })
	return n, true
}

func (in *Interp) protoRender(n *pnode) []Value {
	if len(n.f) == 0 {
		return []Value{}
	}
	if n.concrete() {
		for _, e := range in.blobs() {
			if e.kind == "P" && in.branch(in.peq(e.n.(*pnode), n)) {
				return bytesToSlice([]byte(e.b)).s
			}
		}
		b := n.render()
		in.addBlob(&blobEnt{"P", string(b), n})
		return bytesToSlice(b).s
	}
	b := in.mayBlob("P", n, func(a, b any) Value { return in.peq(a.(*pnode), b.(*pnode)) })
	return bytesToSlice([]byte(b)).s
}

// protoDecode fills a message struct; false for a malformed document.
func (in *Interp) protoDecode(b []Value, t types.Type, p *Value) bool {
	c, ok := concreteBytes(b)
	if !ok {
		for _, e := range in.blobs() {
			if e.kind == "P" && len(e.b) == len(b) && in.branch(in.bytesEq(bytesToSlice([]byte(e.b)).s, b)) {
				return in.protoTree(e.n.(*pnode), t, p)
			}
		}
		if in.side["symjson"] == true {
			return false
		}
		in.unsupported("protobuf message with symbolic bytes")
	}
	if e := in.blobOf("P", string(c)); e != nil {
		return in.protoTree(e.n.(*pnode), t, p)
	}
	n := &pnode{}
	for len(c) > 0 {
		tag, k := binary.Uvarint(c)
		if k <= 0 || tag>>3 == 0 || tag>>3 > 1<<29-1 {
			return false
		}
		c = c[k:]
		switch tag & 7 {
		case 0:
			v, k := binary.Uvarint(c)
			if k <= 0 {
				return false
			}
			c = c[k:]
			n.f = append(n.f, pval{num: int(tag >> 3), wire: 0, v: v})
		case 1:
			if len(c) < 8 {
				return false
			}
			c = c[8:]
		case 5:
			if len(c) < 4 {
				return false
			}
			c = c[4:]
		case 2:
			l, k := binary.Uvarint(c)
			if k <= 0 || uint64(len(c)-k) < l {
				return false
			}
			n.f = append(n.f, pval{num: int(tag >> 3), wire: 2, b: bytesToSlice(c[k : k+int(l)]).s})
			c = c[k+int(l):]
		default:
			return false
		}
	}
	return in.protoTree(n, t, p)
}

func (in *Interp) protoTree(n *pnode, t types.Type, p *Value) bool {
	st := t.Underlying().(*types.Struct)
	s := (*p).(Struct)
	for _, f := range protoFields(st) {
		if f.oneof {
			if !in.protoOneof(n, st.Field(f.idx).Type(), &s[f.idx]) {
				return false
			}
			continue
		}
		for _, v := range n.f {
			if v.num != f.num {
				continue
			}
			et := f.t
			if f.rep {
				et = f.t.Underlying().(*types.Slice).Elem()
			}
			var val Value
			switch {
			case f.msg && v.wire == 2:
				q := new(Value)
				mt := et.Underlying().(*types.Pointer).Elem()
				*q = zero(mt)
				if !f.rep {
					if old := s[f.idx].(*Value); old != nil {
						q = old
					}
				}
				if v.sub != nil {
					if !in.protoTree(v.sub, mt, q) {
						return false
					}
				} else if !in.protoDecode(v.b, mt, q) {
					return false
				}
				val = q
			case f.isString && v.wire == 2:
				b := v.b
				if v.sub != nil {
					b = in.protoRender(v.sub)
				}
				val = mkStr(b)
				if c, ok := val.(string); ok && !utf8.ValidString(c) {
					return false
				}
			case f.wire == "bytes" && v.wire == 2:
				b := v.b
				if v.sub != nil {
					b = in.protoRender(v.sub)
				}
				val = SliceV{s: append([]Value{}, b...)}
			case f.wire == "varint" && v.wire == 0:
				if bt := basicOf(et); bt != nil && bt.Info()&types.IsBoolean != 0 {
					val = in.not(in.eq(v.v, uint64(0)))
				} else {
					w, _ := intWidth(et)
					val = lower(in.ctx.Extract(in.bv(v.v, 64), w-1, 0))
				}
			default:
				continue // unknown field
			}
			if f.rep {
				old := s[f.idx].(SliceV)
				ns := append(append([]Value{}, old.s...), val)
				in.storeTo(&s[f.idx], SliceV{s: ns})
			} else {
				in.storeTo(&s[f.idx], val)
			}
		}
	}
	return true
}

// protoOneof decodes the fields of a oneof: the wrapper of the last one present is stored.
func (in *Interp) protoOneof(n *pnode, t types.Type, p *Value) bool {
	named := t.(*types.Named)
	iface := named.Underlying().(*types.Interface)
	scope := named.Obj().Pkg().Scope()
	wrapper := map[int]types.Type{}
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		if ws, ok := tn.Type().Underlying().(*types.Struct); ok && types.Implements(types.NewPointer(tn.Type()), iface) {
			for _, f := range protoFields(ws) {
				wrapper[f.num] = tn.Type()
			}
		}
	}
	for i, v := range n.f {
		w := wrapper[v.num]
		if w == nil {
			continue
		}
		q := new(Value)
		*q = zero(w)
		// successive values of one message field are merged
		if old := (*p).(Iface); old.t != nil && types.Identical(old.t, types.NewPointer(w)) {
			*q = *old.v.(*Value)
		}
		if !in.protoTree(&pnode{f: n.f[i : i+1]}, w, q) {
			return false
		}
		in.storeTo(p, Iface{types.NewPointer(w), q})
	}
	return true
}

func protoIntrinsics(reg regFn) {
	for _, p := range []string{"google.golang.org/protobuf/proto.", "github.com/golang/protobuf/proto.", "github.com/gogo/protobuf/proto."} {
		reg(p+"Marshal", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			i := a[0].(Iface)
			if i.t == nil {
				if strings.HasPrefix(fn.String(), "google") {
					return Tuple{SliceV{}, Iface{}}
				}
				return Tuple{SliceV{}, in.mkError("proto: Marshal called with nil")}
			}
			if isNilPtr(i.v) {
				if strings.HasPrefix(fn.String(), "google") {
					return Tuple{SliceV{s: []Value{}}, Iface{}}
				}
				return Tuple{SliceV{}, in.mkError("proto: Marshal called with nil")}
			}
			n, ok := in.protoEncode(i.t.Underlying().(*types.Pointer).Elem(), (*i.v.(*Value)).(Struct))
			if !ok {
				return Tuple{SliceV{}, in.mkError("string field contains invalid UTF-8")}
			}
			return Tuple{SliceV{s: in.protoRender(n)}, Iface{}}
		}))
		reg(p+"Unmarshal", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			i := a[1].(Iface)
			if i.t == nil || isNilPtr(i.v) {
				in.nilDeref()
			}
			mt := i.t.Underlying().(*types.Pointer).Elem()
			p := i.v.(*Value)
			z := zero(mt).(Struct)
			for _, f := range protoFields(mt.Underlying().(*types.Struct)) {
				in.storeTo(&(*p).(Struct)[f.idx], z[f.idx])
			}
			if !in.protoDecode(in.byteSlice(a[0]), mt, p) {
				return in.mkError("proto: cannot parse invalid wire-format data")
			}
			return Iface{}
		}))
	}
	const pt = "github.com/golang/protobuf/ptypes"
	const anyT = "google.golang.org/protobuf/types/known/anypb"
	msgName := func(t types.Type) string {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
		return ""
	}
	for _, p := range []string{"github.com/golang/protobuf/proto.", "github.com/gogo/protobuf/proto."} {
		reg(p+"MessageName", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			i := a[0].(Iface)
			if i.t == nil {
				return ""
			}
			return msgName(i.t)
		}))
	}
	reg(pt+".MarshalAny", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		i := a[0].(Iface)
		if i.t == nil || isNilPtr(i.v) {
			return Tuple{(*Value)(nil), in.mkError("proto: Marshal called with nil")}
		}
		n, ok := in.protoEncode(i.t.Underlying().(*types.Pointer).Elem(), (*i.v.(*Value)).(Struct))
		if !ok {
			return Tuple{(*Value)(nil), in.mkError("string field contains invalid UTF-8")}
		}
		return Tuple{in.newStruct(in.eng.typeOf(anyT, "Any"), map[string]Value{"TypeUrl": "type.googleapis.com/" + msgName(i.t), "Value": SliceV{s: in.protoRender(n)}}), Iface{}}
	}))
	// the messages registered under their names: those of tss-lib (no package) and of go-tss
	lookup := func(in *Interp, name string) types.Type {
		for _, q := range []string{"github.com/binance-chain/tss-lib/ecdsa/keygen", "github.com/binance-chain/tss-lib/ecdsa/signing", "github.com/binance-chain/tss-lib/common", "github.com/binance-chain/tss-lib/tss"} {
			t := in.eng.typeOf(q, name)
			if t == nil {
				continue
			}
			if in.eng.lookupMethod(types.NewPointer(t), nil, "ProtoMessage") != nil {
				return t
			}
		}
		return nil
	}
	reg(pt+".UnmarshalAny", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		if isNilPtr(a[0]) {
			return in.mkError("message is nil")
		}
		at := in.eng.typeOf(anyT, "Any")
		as := (*in.ptr(a[0])).(Struct)
		url := in.str(as[fieldIdx(at, "TypeUrl")])
		val := in.byteSlice(as[fieldIdx(at, "Value")])
		i := a[1].(Iface)
		if i.t == nil || isNilPtr(i.v) {
			in.nilDeref()
		}
		k := strings.LastIndexByte(url, '/')
		name := url[k+1:]
		if name == "" {
			return in.mkError("message type url is invalid")
		}
		if !strings.HasSuffix(i.t.String(), "ptypes.DynamicAny") {
			if msgName(i.t) != name {
				return in.mkError("mismatched message type")
			}
			mt := i.t.Underlying().(*types.Pointer).Elem()
			if !in.protoDecode(val, mt, i.v.(*Value)) {
				return in.mkError("proto: cannot parse invalid wire-format data")
			}
			return Iface{}
		}
		dp := i.v.(*Value)
		mt := lookup(in, name)
		if mt == nil {
			return in.mkError("proto: not found")
		}
		v := new(Value)
		*v = zero(mt)
		if !in.protoDecode(val, mt, v) {
			return in.mkError("proto: cannot parse invalid wire-format data")
		}
		in.storeTo(&(*dp).(Struct)[0], Iface{t: types.NewPointer(mt), v: v})
		return Iface{}
	}))
}
