package main

import (
	"encoding/base64"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Text forms of symbolic data: base64 and big numbers. Concrete data is
// left to the real code.

const b64Std = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// isStdB64: the receiver is the standard padded encoding.
func (in *Interp) isStdB64(v Value) bool {
	s, ok := (*in.ptr(v)).(Struct)
	if !ok || len(s) < 3 {
		return false
	}
	enc, ok := s[0].(Array)
	if !ok || len(enc) != 64 || s[2] != Value(uint64('=')) {
		return false
	}
	for i, c := range enc {
		if c != Value(uint64(b64Std[i])) {
			return false
		}
	}
	return true
}

// b64Char is the character of a 6-bit value.
func (in *Interp) b64Char(six *Term) Value {
	if six.isConst() {
		return uint64(b64Std[six.val])
	}
	c := in.ctx
	z := c.ZExt(six, 8)
	lt := func(n uint64) *Term { return c.Cmp(OUlt, z, c.BV(n, 8)) }
	off := func(n int) *Term { return c.Bin(OAdd, z, c.BV(uint64(n)&255, 8)) }
	t := c.Ite(lt(26), off('A'), c.Ite(lt(52), off('a'-26), c.Ite(lt(62), off('0'-52), c.Ite(c.Eq(z, c.BV(62, 8)), c.BV('+', 8), c.BV('/', 8)))))
	m, _ := in.side["b64"].(map[*Term]*Term)
	if m == nil {
		m = map[*Term]*Term{}
		in.side["b64"] = m
	}
	m[t] = six
	return lower(t)
}

func (in *Interp) b64Encode(data []Value) Value {
	c := in.ctx
	var out []Value
	for i := 0; i < len(data); i += 3 {
		n := len(data) - i
		if n > 3 {
			n = 3
		}
		var t *Term
		for j := 0; j < 3; j++ {
			b := c.BV(0, 8)
			if j < n {
				b = in.bv(data[i+j], 8)
			}
			if t == nil {
				t = b
			} else {
				t = c.Concat(t, b)
			}
		}
		for j := 0; j < 4; j++ {
			if j > n {
				out = append(out, uint64('='))
				continue
			}
			out = append(out, in.b64Char(c.Extract(t, 23-6*j, 18-6*j)))
		}
	}
	return mkStr(out)
}

// b64Six is the 6-bit value of a character; false when it is none.
func (in *Interp) b64Six(ch Value) (*Term, bool) {
	c := in.ctx
	t := in.bv(ch, 8)
	if m, _ := in.side["b64"].(map[*Term]*Term); m != nil {
		if s, ok := m[t]; ok {
			return s, true
		}
	}
	rng := func(lo, hi byte) *Term {
		return c.And(c.Cmp(OUle, c.BV(uint64(lo), 8), t), c.Cmp(OUle, t, c.BV(uint64(hi), 8)))
	}
	up, low, dig, plus := rng('A', 'Z'), rng('a', 'z'), rng('0', '9'), c.Eq(t, c.BV('+', 8))
	if !in.branch(lower(c.Or(c.Or(up, low), c.Or(dig, c.Or(plus, c.Eq(t, c.BV('/', 8))))))) {
		return nil, false
	}
	off := func(n int) *Term { return c.Extract(c.Bin(OAdd, t, c.BV(uint64(n)&255, 8)), 5, 0) }
	return c.Ite(up, off(-'A'), c.Ite(low, off(26-'a'), c.Ite(dig, off(52-'0'), c.Ite(plus, c.BV(62, 6), c.BV(63, 6))))), true
}

func textIntrinsics(reg regFn) {
	reg("(*encoding/base64.Encoding).EncodeToString", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		d := in.sliceBytes(a[1])
		if b, ok := concreteBytes(d); ok {
			if in.isStdB64(a[0]) {
				return base64.StdEncoding.EncodeToString(b), stOK
			}
			return nil, stInterpret
		}
		if !in.isStdB64(a[0]) {
			return nil, stInterpret
		}
		return in.b64Encode(d), stOK
	})
	reg("(*encoding/base64.Encoding).DecodeString", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		d := strBytes(a[1])
		if _, ok := concreteBytes(d); ok || !in.isStdB64(a[0]) || len(d)%4 != 0 {
			return nil, stInterpret
		}
		c := in.ctx
		pad := 0
		if x, ok := d[len(d)-1].(uint64); ok && x == '=' {
			pad = 1
			if x, ok := d[len(d)-2].(uint64); ok && x == '=' {
				pad = 2
			}
		}
		// symbolic characters are letters, digits, '+' and '/', or the text is left to the real code
		var out []Value
		for i := 0; i < len(d); i += 4 {
			n := 4
			if i+4 == len(d) {
				n = 4 - pad
			}
			var t *Term
			for j := 0; j < 4; j++ {
				six := c.BV(0, 6)
				if j < n {
					var ok bool
					if six, ok = in.b64Six(d[i+j]); !ok {
						return nil, stInterpret
					}
				}
				if t == nil {
					t = six
				} else {
					t = c.Concat(t, six)
				}
			}
			for j := 0; j < n-1; j++ {
				out = append(out, lower(c.Extract(t, 23-8*j, 16-8*j)))
			}
		}
		return Tuple{SliceV{s: out}, Iface{}}, stOK
	})
	// The decimal form of a symbolic number is ideal: a
	// text of its own for every number.
	reg("(*math/big.Int).String", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		if a[0] == nil {
			return nil, stInterpret
		}
		p := in.ptr(a[0])
		s := (*p).(Struct)
		if neg, ok := s[0].(bool); !ok || neg {
			return nil, stInterpret
		}
		ws := s[1].(SliceV).s
		x, conc := valBig(p)
		type ent struct {
			ws   []Value
			conc bool
			out  string
		}
		ents, _ := in.side["decimal"].([]ent)
		for _, e := range ents {
			if conc && e.conc || len(e.ws) != len(ws) {
				continue
			}
			var eq Value = true
			for i := range ws {
				eq = in.and(eq, in.eq(ws[i], e.ws[i]))
			}
			if in.branch(eq) {
				return e.out, stOK
			}
		}
		var out string
		if conc {
			out = x.String()
		} else {
			out = "1" + strings.Repeat("7", 80) + strconv.Itoa(len(ents))
		}
		in.side["decimal"] = append(ents[:len(ents):len(ents)], ent{ws, conc, out})
		return out, stOK
	})
}
