package main

// Hash-consed SMT terms (bit-vectors, booleans, IEEE doubles) with constant
// folding, evaluation under a model and SMT-LIB printing.

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OExtract
	OConcat
	// floating point (sort width -64)
	OFFromS
	OFFromU
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFRoundUp
	OFRoundDown
	OFRoundZero
	OFToS
	OFLt
	OFLe
	OFEq
)

const (
	SBool = 0
	SFP   = -64
)

type Term struct {
	op   Op
	w    int // 0 bool, >0 bit-vector width, SFP double
	val  uint64
	hi   int
	lo   int
	args []*Term
	name string
	id   int
	vars *varset
}

type varset struct {
	ids []int32 // sorted
}

type tkey struct {
	op         Op
	w          int
	val        uint64
	hi, lo     int
	a, b, c    *Term
	name       string
	moreSuffix string
}

type Ctx struct {
	tab   map[tkey]*Term
	n     int
	vars  []*Term
	vname map[string]int
	tt    *Term
	ff    *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, vname: map[string]int{}}
	c.tt = c.mk(OConst, SBool, 1, 0, 0, "")
	c.ff = c.mk(OConst, SBool, 0, 0, 0, "")
	return c
}

func (c *Ctx) mk(op Op, w int, val uint64, hi, lo int, name string, args ...*Term) *Term {
	k := tkey{op: op, w: w, val: val, hi: hi, lo: lo, name: name}
	switch len(args) {
	case 3:
		k.c = args[2]
		fallthrough
	case 2:
		k.b = args[1]
		fallthrough
	case 1:
		k.a = args[0]
	case 0:
	default:
		var sb strings.Builder
		for _, a := range args {
			sb.WriteString(strconv.Itoa(a.id))
			sb.WriteByte(',')
		}
		k.moreSuffix = sb.String()
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, hi: hi, lo: lo, name: name, args: args, id: c.n}
	c.n++
	if op == OVar {
		t.vars = &varset{ids: []int32{int32(len(c.vars))}}
		c.vars = append(c.vars, t)
	} else {
		t.vars = unionVars(args)
	}
	c.tab[k] = t
	return t
}

var emptyVars = &varset{}

func unionVars(args []*Term) *varset {
	var r *varset = emptyVars
	for _, a := range args {
		if len(a.vars.ids) == 0 || a.vars == r {
			continue
		}
		if len(r.ids) == 0 {
			r = a.vars
			continue
		}
		r = mergeVars(r, a.vars)
	}
	return r
}

func mergeVars(a, b *varset) *varset {
	// subset tests first
	i, j := 0, 0
	out := make([]int32, 0, len(a.ids)+len(b.ids))
	for i < len(a.ids) && j < len(b.ids) {
		switch {
		case a.ids[i] == b.ids[j]:
			out = append(out, a.ids[i])
			i++
			j++
		case a.ids[i] < b.ids[j]:
			out = append(out, a.ids[i])
			i++
		default:
			out = append(out, b.ids[j])
			j++
		}
	}
	out = append(out, a.ids[i:]...)
	out = append(out, b.ids[j:]...)
	if len(out) == len(a.ids) {
		return a
	}
	if len(out) == len(b.ids) {
		return b
	}
	return &varset{ids: out}
}

func mask(w int) uint64 {
	if w >= 64 || w <= 0 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *Ctx) BV(v uint64, w int) *Term { return c.mk(OConst, w, v&mask(w), 0, 0, "") }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tt
	}
	return c.ff
}
func (c *Ctx) FP(f float64) *Term { return c.mk(OConst, SFP, math.Float64bits(f), 0, 0, "") }

// Var makes a fresh variable; the name is made unique by a per-path counter, so
// that re-executions of a path use the same names.
func (c *Ctx) Var(name string, w int) *Term {
	n := c.vname[name]
	c.vname[name] = n + 1
	full := name + "#" + strconv.Itoa(n)
	return c.mk(OVar, w, 0, 0, 0, full)
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, SBool, 0, 0, 0, "", a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return c.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, SBool, 0, 0, 0, "", a, b)
}

func (c *Ctx) Or(a, b *Term) *Term { return c.Not(c.And(c.Not(a), c.Not(b))) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b && a.w != SFP {
		return c.tt
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			// push equality into ite trees with constant leaves
			if a.args[1].isConst() || a.args[2].isConst() {
				x := c.Eq(a.args[1], b)
				y := c.Eq(a.args[2], b)
				return c.Or(c.And(a.args[0], x), c.And(c.Not(a.args[0]), y))
			}
		case OZExt:
			iw := a.args[0].w
			if b.val&^mask(iw) != 0 {
				return c.ff
			}
			return c.Eq(a.args[0], c.BV(b.val, iw))
		case OConcat:
			lw := a.args[1].w
			return c.And(c.Eq(a.args[0], c.BV(b.val>>uint(lw), a.args[0].w)), c.Eq(a.args[1], c.BV(b.val, lw)))
		case OAdd:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.BV(b.val-a.args[1].val, a.w))
			}
		case OBXor:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.BV(b.val^a.args[1].val, a.w))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, SBool, 0, 0, 0, "", a, b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isConst() {
		if cond.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == SBool {
		if a.isConst() && b.isConst() {
			if a.val == 1 {
				return cond
			}
			return c.Not(cond)
		}
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	return c.mk(OIte, a.w, 0, 0, 0, "", cond, a, b)
}

func foldBin(op Op, a, b uint64, w int) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		if b == 0 {
			return 0, false
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OSRem:
		if b == 0 {
			return 0, false
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(x>>b) & m, true
	}
	return 0, false
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin width mismatch op=%d %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, a.val, b.val, w); ok {
			return c.BV(v, w)
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLShr, OAShr:
			if b.val == 0 {
				return a
			}
		}
		switch op {
		case OSub:
			return c.Bin(OAdd, a, c.BV(-b.val, w))
		case OAdd:
			if a.op == OAdd && a.args[1].isConst() {
				return c.Bin(OAdd, a.args[0], c.BV(a.args[1].val+b.val, w))
			}
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OUDiv, OSDiv:
			if b.val == 1 {
				return a
			}
		case OBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// low mask of zext / wide value
			if bits.OnesCount64(b.val+1) <= 1 { // b = 2^k-1
				k := bits.Len64(b.val)
				if a.op == OZExt && a.args[0].w <= k {
					return a
				}
				if k < w && k > 0 {
					return c.ZExt(c.Extract(a, k-1, 0), w)
				}
			}
		case OBOr:
			if b.val == mask(w) {
				return b
			}
		}
		switch op {
		case OLShr:
			if b.val >= uint64(w) {
				return c.BV(0, w)
			}
			return c.ZExt(c.Extract(a, w-1, int(b.val)), w)
		case OShl:
			if b.val >= uint64(w) {
				return c.BV(0, w)
			}
			k := int(b.val)
			return c.Concat(c.Extract(a, w-1-k, 0), c.BV(0, k))
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return c.BV(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	if op == OBOr {
		// or of disjoint concat/zext pieces -> concat
		if r := c.orConcat(a, b); r != nil {
			return r
		}
	}
	return c.mk(op, w, 0, 0, 0, "", a, b)
}

// piece decomposition for byte assembly: x<<8 | y
func (c *Ctx) pieces(t *Term) []*Term {
	switch t.op {
	case OConcat:
		return append(c.pieces(t.args[0]), c.pieces(t.args[1])...)
	case OZExt:
		return append([]*Term{c.BV(0, t.w-t.args[0].w)}, c.pieces(t.args[0])...)
	}
	return []*Term{t}
}

func (c *Ctx) orConcat(a, b *Term) *Term {
	if a.op != OConcat && a.op != OZExt && b.op != OConcat && b.op != OZExt {
		return nil
	}
	pa, pb := c.pieces(a), c.pieces(b)
	cut := func(p []*Term, n int) (first *Term, rest []*Term) {
		if p[0].w == n {
			return p[0], p[1:]
		}
		h := c.Extract(p[0], p[0].w-1, p[0].w-n)
		l := c.Extract(p[0], p[0].w-n-1, 0)
		return h, append([]*Term{l}, p[1:]...)
	}
	var out []*Term
	for len(pa) > 0 && len(pb) > 0 {
		n := pa[0].w
		if pb[0].w < n {
			n = pb[0].w
		}
		var x, y *Term
		x, pa = cut(pa, n)
		y, pb = cut(pb, n)
		switch {
		case x.isConst() && x.val == 0:
			out = append(out, y)
		case y.isConst() && y.val == 0:
			out = append(out, x)
		case x.isConst() && y.isConst():
			out = append(out, c.BV(x.val|y.val, n))
		default:
			return nil
		}
	}
	r := out[0]
	for _, o := range out[1:] {
		r = c.Concat(r, o)
	}
	return r
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(^a.val, a.w)
	}
	return c.mk(OBNot, a.w, 0, 0, 0, "", a)
}
func (c *Ctx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.BV(-a.val, a.w)
	}
	return c.mk(ONeg, a.w, 0, 0, 0, "", a)
}

func umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZExt:
		return umax(t.args[0])
	case OIte:
		x, y := umax(t.args[1]), umax(t.args[2])
		if x > y {
			return x
		}
		return y
	}
	return mask(t.w)
}

func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Cmp width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		x, y := a.val, b.val
		sx, sy := sext(x, a.w), sext(y, a.w)
		switch op {
		case OUlt:
			return c.Bool(x < y)
		case OUle:
			return c.Bool(x <= y)
		case OSlt:
			return c.Bool(sx < sy)
		case OSle:
			return c.Bool(sx <= sy)
		}
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	switch op {
	case OUlt:
		if b.isConst() && umax(a) < b.val {
			return c.tt
		}
		if a.isConst() && umax(b) <= a.val {
			return c.ff
		}
		if b.isConst() && b.val == 0 {
			return c.ff
		}
	case OUle:
		if b.isConst() && umax(a) <= b.val {
			return c.tt
		}
		if a.isConst() && a.val == 0 {
			return c.tt
		}
	case OSlt, OSle:
		// both sides known non-negative -> unsigned
		sb := uint64(1) << uint(a.w-1)
		if umax(a) < sb && umax(b) < sb {
			if op == OSlt {
				return c.Cmp(OUlt, a, b)
			}
			return c.Cmp(OUle, a, b)
		}
	}
	return c.mk(op, SBool, 0, 0, 0, "", a, b)
}

func (c *Ctx) ZExt(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(a.val, w)
	}
	if a.op == OZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.ZExt(a.args[1], w), c.ZExt(a.args[2], w))
	}
	return c.mk(OZExt, w, 0, 0, 0, "", a)
}

func (c *Ctx) SExt(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(uint64(sext(a.val, a.w)), w)
	}
	if umax(a) < uint64(1)<<uint(a.w-1) {
		return c.ZExt(a, w)
	}
	return c.mk(OSExt, w, 0, 0, 0, "", a)
}

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	n := hi - lo + 1
	if a.isConst() {
		return c.BV(a.val>>uint(lo), n)
	}
	switch a.op {
	case OExtract:
		return c.Extract(a.args[0], a.lo+hi, a.lo+lo)
	case OZExt:
		iw := a.args[0].w
		if lo >= iw {
			return c.BV(0, n)
		}
		if hi < iw {
			return c.Extract(a.args[0], hi, lo)
		}
		return c.ZExt(c.Extract(a.args[0], iw-1, lo), n)
	case OSExt:
		iw := a.args[0].w
		if hi < iw {
			return c.Extract(a.args[0], hi, lo)
		}
	case OConcat:
		lw := a.args[1].w
		if lo >= lw {
			return c.Extract(a.args[0], hi-lw, lo-lw)
		}
		if hi < lw {
			return c.Extract(a.args[1], hi, lo)
		}
		return c.Concat(c.Extract(a.args[0], hi-lw, 0), c.Extract(a.args[1], lw-1, lo))
	case OBAnd, OBOr, OBXor:
		return c.Bin(a.op, c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	case OIte:
		return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0))
		}
	}
	return c.mk(OExtract, n, 0, hi, lo, "", a)
}

func (c *Ctx) Concat(a, b *Term) *Term {
	if a.isConst() && b.isConst() && a.w+b.w <= 64 {
		return c.BV(a.val<<uint(b.w)|b.val, a.w+b.w)
	}
	if a.isConst() && a.val == 0 {
		return c.ZExt(b, a.w+b.w)
	}
	if a.op == OExtract && b.op == OExtract && a.args[0] == b.args[0] && a.lo == b.hi+1 {
		return c.Extract(a.args[0], a.hi, b.lo)
	}
	return c.mk(OConcat, a.w+b.w, 0, 0, 0, "", a, b)
}

func (c *Ctx) F(op Op, w int, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
		}
	}
	t := c.mk(op, w, 0, 0, 0, "", args...)
	if all {
		v := t.eval(map[string]uint64{}, map[*Term]uint64{})
		return c.mk(OConst, w, v, 0, 0, "")
	}
	return t
}

// eval evaluates under a model (missing variables are zero).
func (t *Term) eval(m map[string]uint64, memo map[*Term]uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.op == OVar {
		return m[t.name] & mask64(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	ev := func(i int) uint64 { return t.args[i].eval(m, memo) }
	fl := func(i int) float64 { return math.Float64frombits(ev(i)) }
	switch t.op {
	case ONot:
		r = 1 - ev(0)
	case OAnd:
		if ev(0) == 0 {
			r = 0
		} else {
			r = ev(1)
		}
	case OOr:
		r = ev(0) | ev(1)
	case OEq:
		r = b2u(ev(0) == ev(1))
	case OIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr:
		v, ok := foldBin(t.op, ev(0), ev(1), t.w)
		if !ok { // division by zero, SMT-LIB semantics
			x := ev(0)
			if t.op == OSRem {
				v = x
			} else if sext(x, t.w) < 0 {
				v = 1
			} else {
				v = mask(t.w)
			}
		}
		r = v
	case OBNot:
		r = ^ev(0) & mask(t.w)
	case ONeg:
		r = -ev(0) & mask(t.w)
	case OUlt:
		r = b2u(ev(0) < ev(1))
	case OUle:
		r = b2u(ev(0) <= ev(1))
	case OSlt:
		r = b2u(sext(ev(0), t.args[0].w) < sext(ev(1), t.args[1].w))
	case OSle:
		r = b2u(sext(ev(0), t.args[0].w) <= sext(ev(1), t.args[1].w))
	case OZExt:
		r = ev(0)
	case OSExt:
		r = uint64(sext(ev(0), t.args[0].w)) & mask(t.w)
	case OExtract:
		r = (ev(0) >> uint(t.lo)) & mask(t.w)
	case OConcat:
		r = (ev(0)<<uint(t.args[1].w) | ev(1)) & mask(t.w)
	case OFFromS:
		r = math.Float64bits(float64(sext(ev(0), t.args[0].w)))
	case OFFromU:
		r = math.Float64bits(float64(ev(0)))
	case OFAdd:
		r = math.Float64bits(fl(0) + fl(1))
	case OFSub:
		r = math.Float64bits(fl(0) - fl(1))
	case OFMul:
		r = math.Float64bits(fl(0) * fl(1))
	case OFDiv:
		r = math.Float64bits(fl(0) / fl(1))
	case OFNeg:
		r = math.Float64bits(-fl(0))
	case OFRoundUp:
		r = math.Float64bits(math.Ceil(fl(0)))
	case OFRoundDown:
		r = math.Float64bits(math.Floor(fl(0)))
	case OFRoundZero:
		r = math.Float64bits(math.Trunc(fl(0)))
	case OFToS:
		r = uint64(int64(fl(0))) & mask(t.w)
	case OFLt:
		r = b2u(fl(0) < fl(1))
	case OFLe:
		r = b2u(fl(0) <= fl(1))
	case OFEq:
		r = b2u(fl(0) == fl(1))
	default:
		panic("eval: op")
	}
	memo[t] = r
	return r
}

func mask64(w int) uint64 {
	if w == SBool {
		return 1
	}
	if w == SFP {
		return ^uint64(0)
	}
	return mask(w)
}

// ---- SMT-LIB printing

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OBNot: "bvnot", ONeg: "bvneg",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg",
	OFRoundUp: "fp.roundToIntegral RTP", OFRoundDown: "fp.roundToIntegral RTN", OFRoundZero: "fp.roundToIntegral RTZ",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq",
	OFFromS: "(_ to_fp 11 53) RNE", OFFromU: "(_ to_fp_unsigned 11 53) RNE",
}

func sortName(w int) string {
	switch {
	case w == SBool:
		return "Bool"
	case w == SFP:
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func constText(t *Term) string {
	switch {
	case t.w == SBool:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case t.w == SFP:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	case t.w%4 == 0:
		return fmt.Sprintf("#x%0*x", t.w/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", t.w, t.val)
}

// smtPrinter prints terms as a sequence of define-funs for shared nodes.
type smtPrinter struct {
	sb    strings.Builder
	done  map[*Term]string
	decls []*Term
	n     int
}

func (p *smtPrinter) emit(t *Term) string {
	if s, ok := p.done[t]; ok {
		return s
	}
	var s string
	switch t.op {
	case OConst:
		s = constText(t)
	case OVar:
		s = "|" + t.name + "|"
		p.decls = append(p.decls, t)
	default:
		as := make([]string, len(t.args))
		for i, a := range t.args {
			as[i] = p.emit(a)
		}
		var h string
		switch t.op {
		case OZExt:
			h = "(_ zero_extend " + strconv.Itoa(t.w-t.args[0].w) + ")"
		case OSExt:
			h = "(_ sign_extend " + strconv.Itoa(t.w-t.args[0].w) + ")"
		case OExtract:
			h = "(_ extract " + strconv.Itoa(t.hi) + " " + strconv.Itoa(t.lo) + ")"
		case OFToS:
			h = "(_ fp.to_sbv " + strconv.Itoa(t.w) + ") RTZ"
		default:
			h = opNames[t.op]
		}
		body := "(" + h + " " + strings.Join(as, " ") + ")"
		if len(body) < 24 {
			s = body
		} else {
			s = "t" + strconv.Itoa(p.n)
			p.n++
			p.sb.WriteString("(define-fun " + s + " () " + sortName(t.w) + " " + body + ")\n")
		}
	}
	p.done[t] = s
	return s
}
