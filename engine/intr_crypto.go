package main

// Cryptographic primitives. Deterministic encodings (bech32, base58, public key
// parsing, key derivation) are computed for real on concrete values. Hashing and
// signing are ideal: collision-free and unforgeable.

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------- native helpers

const b58Alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func b58Encode(b []byte) string {
	x := new(big.Int).SetBytes(b)
	var out []byte
	m, r := big.NewInt(58), new(big.Int)
	for x.Sign() > 0 {
		x.DivMod(x, m, r)
		out = append(out, b58Alphabet[r.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

func b58Decode(s string) ([]byte, bool) {
	if len(s) == 0 {
		return nil, false
	}
	x := new(big.Int)
	for i := 0; i < len(s); i++ {
		k := strings.IndexByte(b58Alphabet, s[i])
		if k < 0 {
			return nil, false
		}
		x.Mul(x, big.NewInt(58))
		x.Add(x, big.NewInt(int64(k)))
	}
	var out []byte
	for i := 0; i < len(s) && s[i] == '1'; i++ {
		out = append(out, 0)
	}
	return append(out, x.Bytes()...), true
}

const b32Charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func bech32Polymod(v []byte) uint32 {
	gen := []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	chk := uint32(1)
	for _, x := range v {
		b := chk >> 25
		chk = (chk&0x1ffffff)<<5 ^ uint32(x)
		for i := 0; i < 5; i++ {
			if (b>>uint(i))&1 == 1 {
				chk ^= gen[i]
			}
		}
	}
	return chk
}

func bech32Expand(hrp string) []byte {
	var v []byte
	for i := 0; i < len(hrp); i++ {
		v = append(v, hrp[i]>>5)
	}
	v = append(v, 0)
	for i := 0; i < len(hrp); i++ {
		v = append(v, hrp[i]&31)
	}
	return v
}

func bech32Encode(hrp string, data []byte) string { // data: 8-bit
	d5, _ := bits58(data, 8, 5, true)
	v := append(bech32Expand(hrp), d5...)
	pm := bech32Polymod(append(v, 0, 0, 0, 0, 0, 0)) ^ 1
	out := hrp + "1"
	for _, x := range d5 {
		out += string(b32Charset[x])
	}
	for i := 0; i < 6; i++ {
		out += string(b32Charset[(pm>>uint(5*(5-i)))&31])
	}
	return out
}

func bits58(data []byte, from, to uint, pad bool) ([]byte, bool) {
	acc, n := uint32(0), uint(0)
	var out []byte
	for _, b := range data {
		acc = acc<<from | uint32(b)
		n += from
		for n >= to {
			n -= to
			out = append(out, byte(acc>>n)&byte(1<<to-1))
		}
		acc &= 1<<n - 1
	}
	if pad {
		if n > 0 {
			out = append(out, byte(acc<<(to-n))&byte(1<<to-1))
		}
	} else if n >= from || acc != 0 {
		return nil, false
	}
	return out, true
}

func bech32Decode(s string) (string, []byte, bool) {
	if len(s) < 8 || len(s) > 1023 {
		return "", nil, false
	}
	lower, upper := false, false
	for i := 0; i < len(s); i++ {
		if s[i] < 33 || s[i] > 126 {
			return "", nil, false
		}
		lower = lower || s[i] >= 'a' && s[i] <= 'z'
		upper = upper || s[i] >= 'A' && s[i] <= 'Z'
	}
	if lower && upper {
		return "", nil, false
	}
	s = strings.ToLower(s)
	one := strings.LastIndexByte(s, '1')
	if one < 1 || one+7 > len(s) {
		return "", nil, false
	}
	var d []byte
	for i := one + 1; i < len(s); i++ {
		k := strings.IndexByte(b32Charset, s[i])
		if k < 0 {
			return "", nil, false
		}
		d = append(d, byte(k))
	}
	if bech32Polymod(append(bech32Expand(s[:one]), d...)) != 1 {
		return "", nil, false
	}
	b, ok := bits58(d[:len(d)-6], 5, 8, false)
	return s[:one], b, ok
}

func hexInt(s string) *big.Int {
	x, _ := new(big.Int).SetString(s, 16)
	return x
}

var (
	secP  = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	secN  = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	secGx = hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	secGy = hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
)

func secOnCurve(x, y *big.Int) bool {
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, big.NewInt(7))
	return l.Sub(l, r).Mod(l, secP).Sign() == 0
}

func secDecompress(x *big.Int, odd bool) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, big.NewInt(7))
	r.Mod(r, secP)
	y := new(big.Int).ModSqrt(r, secP)
	if y == nil {
		return nil
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(secP, y)
	}
	return y
}

func secAdd(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1 == nil {
		return x2, y2
	}
	if x2 == nil {
		return x1, y1
	}
	var l *big.Int
	if x1.Cmp(x2) == 0 {
		if y1.Cmp(y2) != 0 {
			return nil, nil
		}
		l = new(big.Int).Mul(x1, x1)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(y1, 1), secP))
	} else {
		d := new(big.Int).Sub(x2, x1)
		d.Mod(d, secP)
		l = new(big.Int).Sub(y2, y1)
		l.Mul(l, d.ModInverse(d, secP))
	}
	l.Mod(l, secP)
	x3 := new(big.Int).Mul(l, l)
	x3.Sub(x3, x1)
	x3.Sub(x3, x2)
	x3.Mod(x3, secP)
	y3 := new(big.Int).Sub(x1, x3)
	y3.Mul(y3, l)
	y3.Sub(y3, y1)
	y3.Mod(y3, secP)
	return x3, y3
}

var secMulCache sync.Map

func secBaseMul(k *big.Int) (*big.Int, *big.Int) {
	key := k.Text(16)
	if v, ok := secMulCache.Load(key); ok {
		p := v.([2]*big.Int)
		return p[0], p[1]
	}
	var rx, ry *big.Int
	x, y := secGx, secGy
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			rx, ry = secAdd(rx, ry, x, y)
		}
		x, y = secAdd(x, y, x, y)
	}
	if rx == nil {
		rx, ry = new(big.Int), new(big.Int)
	}
	secMulCache.Store(key, [2]*big.Int{rx, ry})
	return rx, ry
}

func secCompressed(x, y *big.Int) []byte {
	b := make([]byte, 33)
	b[0] = 2 + byte(y.Bit(0))
	x.FillBytes(b[1:])
	return b
}

// parsePub parses a serialized public key; nil when invalid.
func parsePub(b []byte) (*big.Int, *big.Int) {
	switch len(b) {
	case 33:
		if b[0]&^1 != 2 {
			return nil, nil
		}
		x := new(big.Int).SetBytes(b[1:])
		y := secDecompress(x, b[0]&1 == 1)
		if y == nil {
			return nil, nil
		}
		return x, y
	case 65:
		if b[0] != 4 && b[0]&^1 != 6 {
			return nil, nil
		}
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		if b[0] != 4 && (b[0]&1 == 1) != (y.Bit(0) == 1) {
			return nil, nil
		}
		if x.Cmp(secP) >= 0 || y.Cmp(secP) >= 0 || !secOnCurve(x, y) {
			return nil, nil
		}
		return x, y
	}
	return nil, nil
}

// ---------- big.Int values

func bigVal(x *big.Int) *Value {
	var words []Value
	m := new(big.Int).Set(x)
	m.Abs(m)
	w := new(big.Int)
	for m.Sign() > 0 {
		w.And(m, new(big.Int).SetUint64(^uint64(0)))
		words = append(words, w.Uint64())
		m.Rsh(m, 64)
	}
	p := new(Value)
	*p = Struct{x.Sign() < 0, SliceV{s: words}}
	return p
}

func valBig(p *Value) (*big.Int, bool) {
	s := (*p).(Struct)
	ws := s[1].(SliceV).s
	x := new(big.Int)
	for i := len(ws) - 1; i >= 0; i-- {
		u, ok := ws[i].(uint64)
		if !ok {
			return nil, false
		}
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(u))
	}
	neg, ok := s[0].(bool)
	if !ok {
		return nil, false
	}
	if neg {
		x.Neg(x)
	}
	return x, true
}

func (in *Interp) big(v Value) *big.Int {
	x, ok := valBig(in.ptr(v))
	if !ok {
		in.unsupported("symbolic big integer in a cryptographic primitive")
	}
	return x
}

// bigEq is equality of two non-negative big integers as a term.
func (in *Interp) bigEq(a, b *Value) Value {
	x, y := (*a).(Struct)[1].(SliceV).s, (*b).(Struct)[1].(SliceV).s
	if len(x) != len(y) {
		return false
	}
	var r Value = in.eq((*a).(Struct)[0], (*b).(Struct)[0])
	for i := range x {
		r = in.and(r, in.eq(x[i], y[i]))
	}
	return r
}

func (in *Interp) byteSlice(v Value) []Value {
	s, ok := v.(SliceV)
	if !ok || s.n != nil {
		in.unsupported("byte slice expected, got %T", v)
	}
	return s.s
}

func (in *Interp) concBytes(v Value) []byte {
	vs := in.sliceBytes(v)
	b, ok := concreteBytes(vs)
	if !ok {
		b = make([]byte, len(vs))
		for i := range vs {
			b[i] = byte(in.concretize(vs[i]))
		}
	}
	return b
}

// ---------- ideal hashing

type hashEnt struct {
	in, out []Value
}

// idealHash is a collision-free hash: equal inputs give equal outputs and
// different inputs different ones. Concrete inputs are hashed for real.
func (in *Interp) idealHash(kind string, size int, data []Value, real func([]byte) []byte) []Value {
	k := "hash:" + kind
	ents, _ := in.side[k].([]*hashEnt)
	conc, isConc := concreteBytes(data)
	for _, e := range ents {
		if len(e.in) != len(data) {
			continue
		}
		if in.branch(in.bytesEq(e.in, data)) {
			return e.out
		}
	}
	var out []Value
	if isConc {
		for _, b := range real(conc) {
			out = append(out, uint64(b))
		}
	} else {
		id := len(ents) + 1
		for i := 0; i < size; i++ {
			switch {
			case i < 4: // arbitrary position in the order of hashes
				out = append(out, in.fresh("h", 8))
			case i == 4:
				out = append(out, uint64(0xA5))
			case i == 5:
				out = append(out, uint64(id&0xff))
			default:
				out = append(out, uint64(0x5A))
			}
		}
	}
	in.side[k] = append(append([]*hashEnt(nil), ents...), &hashEnt{append([]Value(nil), data...), out})
	return out
}

func (in *Interp) sha256(data []Value) []Value {
	return in.idealHash("sha256", 32, data, func(b []byte) []byte { s := sha256.Sum256(b); return s[:] })
}

// ---------- ideal signatures

type sigEnt struct {
	pub  string
	kind string
	msg  []Value
	r, s []byte
}

func (in *Interp) signIdeal(kind string, pub []byte, msg []Value) *sigEnt {
	ents, _ := in.side["sigs"].([]*sigEnt)
	for _, e := range ents {
		if e.pub == string(pub) && e.kind == kind && len(e.msg) == len(msg) && in.branch(in.bytesEq(e.msg, msg)) {
			return e
		}
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("R%s%x%d", kind, pub, len(ents))))
	g := sha256.Sum256([]byte(fmt.Sprintf("S%s%x%d", kind, pub, len(ents))))
	h[0], g[0] = 0x11, 0x11
	e := &sigEnt{string(pub), kind, append([]Value(nil), msg...), h[:], g[:]}
	in.side["sigs"] = append(append([]*sigEnt(nil), ents...), e)
	return e
}

func (in *Interp) or(a, b Value) Value { return in.not(in.and(in.not(a), in.not(b))) }

func (in *Interp) verifyIdeal(kind string, pub []byte, msg, sig []Value) Value {
	ents, _ := in.side["sigs"].([]*sigEnt)
	var r Value = false
	if len(sig) != 64 {
		return false
	}
	for _, e := range ents {
		if e.pub != string(pub) || e.kind != kind || len(e.msg) != len(msg) {
			continue
		}
		es := append(append([]byte{}, e.r...), e.s...)
		r = in.or(r, in.and(in.bytesEq(bytesToSlice(es).s, sig), in.bytesEq(e.msg, msg)))
	}
	return r
}

func (in *Interp) verifyIdealRS(kind string, pub []byte, msg []Value, r, s *Value) Value {
	ents, _ := in.side["sigs"].([]*sigEnt)
	var res Value = false
	for _, e := range ents {
		if e.pub != string(pub) || e.kind != kind || len(e.msg) != len(msg) {
			continue
		}
		er, es := bigVal(new(big.Int).SetBytes(e.r)), bigVal(new(big.Int).SetBytes(e.s))
		res = in.or(res, in.and(in.and(in.bigEq(er, r), in.bigEq(es, s)), in.bytesEq(e.msg, msg)))
	}
	return res
}

// ---------- registration

func (in *Interp) newStruct(t types.Type, fields map[string]Value) *Value {
	s := zero(t).(Struct)
	for k, v := range fields {
		s[fieldIdx(t, k)] = v
	}
	p := new(Value)
	*p = s
	return p
}

func (in *Interp) curve(pkg string) *Value {
	k := "curve:" + pkg
	if p, ok := in.side[k].(*Value); ok {
		return p
	}
	t := in.eng.typeOf(pkg, "KoblitzCurve")
	cp := in.newStruct(in.eng.typeOf("crypto/elliptic", "CurveParams"), map[string]Value{
		"P": bigVal(secP), "N": bigVal(secN), "B": bigVal(big.NewInt(7)), "Gx": bigVal(secGx), "Gy": bigVal(secGy), "BitSize": uint64(256), "Name": "secp256k1"})
	p := in.newStruct(t, map[string]Value{"CurveParams": cp})
	in.side[k] = p
	return p
}

func cryptoIntrinsics(reg regFn) {
	// hashes
	arr := func(v []Value) Array {
		r := make(Array, len(v))
		copy(r, v)
		return r
	}
	for _, n := range []string{"crypto/sha256.Sum256", "github.com/minio/sha256-simd.Sum256"} {
		reg(n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return arr(in.sha256(in.byteSlice(a[0]))) }))
	}
	for _, n := range []string{"crypto/sha256.New", "github.com/minio/sha256-simd.New"} {
		reg(n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			return Iface{t: fn.Signature.Results().At(0).Type(), v: &Opaque{kind: "sha256", v: new([]Value)}}
		}))
	}
	for _, n := range []string{"github.com/tendermint/tendermint/crypto.Sha256", "github.com/tendermint/tendermint/crypto/tmhash.Sum"} {
		reg(n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			return SliceV{s: in.sha256(in.byteSlice(a[0]))}
		}))
	}
	reg("golang.org/x/crypto/ripemd160.New", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return Iface{t: fn.Signature.Results().At(0).Type(), v: &Opaque{kind: "ripemd", v: new([]Value)}}
	}))
	// encodings
	reg("github.com/mr-tron/base58/base58.Encode", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return b58Encode(in.concBytes(a[0]))
	}))
	reg("github.com/mr-tron/base58.Encode", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return b58Encode(in.concBytes(a[0]))
	}))
	for _, n := range []string{"github.com/mr-tron/base58/base58.Decode", "github.com/mr-tron/base58.Decode"} {
		reg(n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			b, ok := b58Decode(in.str(a[0]))
			if !ok {
				return Tuple{SliceV{}, in.mkError("invalid base58 string")}
			}
			return Tuple{bytesToSlice(b), Iface{}}
		}))
	}
	const b32p = "github.com/cosmos/cosmos-sdk/types/bech32."
	reg(b32p+"ConvertAndEncode", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return Tuple{bech32Encode(in.str(a[0]), in.concBytes(a[1])), Iface{}}
	}))
	reg(b32p+"DecodeAndConvert", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		h, b, ok := bech32Decode(in.str(a[0]))
		if !ok {
			return Tuple{"", SliceV{}, in.mkError("decoding bech32 failed")}
		}
		return Tuple{h, bytesToSlice(b), Iface{}}
	}))
	reg("github.com/cosmos/cosmos-sdk/codec/legacy.PubKeyFromBytes", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		b := in.concBytes(a[0])
		if len(b) == 38 && string(b[:5]) == "\xeb\x5a\xe9\x87\x21" {
			t := in.eng.typeOf("github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1", "PubKey")
			return Tuple{Iface{t: types.NewPointer(t), v: in.newStruct(t, map[string]Value{"Key": bytesToSlice(b[5:])})}, Iface{}}
		}
		if len(b) == 37 && string(b[:5]) == "\x16\x24\xde\x64\x20" {
			t := in.eng.typeOf("github.com/cosmos/cosmos-sdk/crypto/keys/ed25519", "PubKey")
			return Tuple{Iface{t: types.NewPointer(t), v: in.newStruct(t, map[string]Value{"Key": bytesToSlice(b[5:])})}, Iface{}}
		}
		return Tuple{Iface{}, in.mkError("cannot unmarshal public key")}
	}))
	const acc = "github.com/cosmos/cosmos-sdk/types."
	reg(acc+"Bech32ifyPubKey", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		m := map[string]string{"accpub": "GetBech32AccountPubPrefix", "valpub": "GetBech32ValidatorPubPrefix", "conspub": "GetBech32ConsensusPubPrefix"}[in.str(a[0])]
		prefix := ""
		if m != "" {
			cfg := in.callOn(g, &Closure{fn: in.eng.funcOf("github.com/cosmos/cosmos-sdk/types", "GetConfig")}, nil)
			mf := in.eng.lookupMethod(types.NewPointer(in.eng.typeOf("github.com/cosmos/cosmos-sdk/types", "Config")), nil, m)
			prefix = in.str(in.callOn(g, &Closure{fn: mf}, []Value{cfg}))
		}
		pk := a[1].(Iface)
		if pk.t == nil {
			in.nilDeref()
		}
		if !strings.HasSuffix(pk.t.String(), "keys/secp256k1.PubKey") {
			in.unsupported("bech32 of %s", pk.t)
		}
		s := (*in.ptr(pk.v)).(Struct)
		key := in.concBytes(s[fieldIdx(pk.t.Underlying().(*types.Pointer).Elem(), "Key")])
		if len(key) > 127 {
			in.unsupported("oversized key")
		}
		return Tuple{bech32Encode(prefix, append([]byte{0xeb, 0x5a, 0xe9, 0x87, byte(len(key))}, key...)), Iface{}}
	}))
	const lp = "github.com/libp2p/go-libp2p-core/crypto."
	reg(lp+"MarshalPublicKey", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		i := a[0].(Iface)
		if i.t == nil {
			in.nilDeref()
		}
		if !strings.HasSuffix(i.t.String(), "crypto.Secp256k1PublicKey") {
			in.unsupported("libp2p key %s", i.t)
		}
		s := (*in.ptr(i.v)).(Struct)
		st := i.t.(*types.Pointer).Elem()
		b := secCompressed(in.big(s[fieldIdx(st, "X")]), in.big(s[fieldIdx(st, "Y")]))
		return Tuple{bytesToSlice(append([]byte{8, 2, 0x12, 0x21}, b...)), Iface{}}
	}))
	reg(lp+"UnmarshalPublicKey", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		b := in.concBytes(a[0])
		if len(b) == 37 && string(b[:4]) == "\x08\x02\x12\x21" {
			r := in.callOn(g, &Closure{fn: in.eng.funcOf("github.com/libp2p/go-libp2p-core/crypto", "UnmarshalSecp256k1PublicKey")}, []Value{bytesToSlice(b[4:])})
			return r
		}
		return Tuple{Iface{}, in.mkError("invalid or unsupported key type")}
	}))
	for _, bt := range []string{"github.com/btcsuite/btcd/btcec", "github.com/tendermint/btcd/btcec"} {
		bt := bt
		pubStruct := func(in *Interp, x, y *big.Int) *Value {
			return in.newStruct(in.eng.typeOf(bt, "PublicKey"), map[string]Value{
				"Curve": Iface{t: types.NewPointer(in.eng.typeOf(bt, "KoblitzCurve")), v: in.curve(bt)}, "X": bigVal(x), "Y": bigVal(y)})
		}
		reg(bt+".S256", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return in.curve(bt) }))
		reg("(*"+bt+".KoblitzCurve).IsOnCurve", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			return secOnCurve(in.big(a[1]), in.big(a[2]))
		}))
		reg(bt+".ParsePubKey", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			x, y := parsePub(in.concBytes(a[0]))
			if x == nil {
				return Tuple{(*Value)(nil), in.mkError("invalid public key")}
			}
			return Tuple{pubStruct(in, x, y), Iface{}}
		}))
		priv := func(in *Interp, d *big.Int) (*Value, *Value) {
			x, y := secBaseMul(d)
			pub := pubStruct(in, x, y)
			p := in.newStruct(in.eng.typeOf(bt, "PrivateKey"), map[string]Value{"PublicKey": copyVal(*pub), "D": bigVal(d)})
			return p, pub
		}
		reg(bt+".PrivKeyFromBytes", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			d := new(big.Int).SetBytes(in.concBytes(a[1]))
			p, q := priv(in, d)
			return Tuple{p, q}
		}))
		reg("(*"+bt+".PrivateKey).Sign", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			st := in.eng.typeOf(bt, "PrivateKey")
			d := in.big((*in.ptr(a[0])).(Struct)[fieldIdx(st, "D")])
			x, y := secBaseMul(d)
			e := in.signIdeal("raw", secCompressed(x, y), in.byteSlice(a[1]))
			sg := in.newStruct(in.eng.typeOf(bt, "Signature"), map[string]Value{"R": bigVal(new(big.Int).SetBytes(e.r)), "S": bigVal(new(big.Int).SetBytes(e.s))})
			return Tuple{sg, Iface{}}
		}))
		reg("(*"+bt+".Signature).Verify", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			st := in.eng.typeOf(bt, "PublicKey")
			ps := (*in.ptr(a[2])).(Struct)
			sg := (*in.ptr(a[0])).(Struct)
			return in.verifyIdealRS("raw", secCompressed(in.big(ps[fieldIdx(st, "X")]), in.big(ps[fieldIdx(st, "Y")])), in.byteSlice(a[1]), in.ptr(sg[0]), in.ptr(sg[1]))
		}))
	}
	reg("crypto/ecdsa.Verify", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		st := in.eng.typeOf("crypto/ecdsa", "PublicKey")
		ps := (*in.ptr(a[0])).(Struct)
		return in.verifyIdealRS("raw", secCompressed(in.big(ps[fieldIdx(st, "X")]), in.big(ps[fieldIdx(st, "Y")])), in.byteSlice(a[1]), in.ptr(a[2]), in.ptr(a[3]))
	}))
	// tendermint and cosmos secp256k1: SHA-256 then sign
	sign := func(in *Interp, d []byte, msg []Value) Value {
		x, y := secBaseMul(new(big.Int).SetBytes(d))
		e := in.signIdeal("sha", secCompressed(x, y), msg)
		return Tuple{bytesToSlice(append(append([]byte{}, e.r...), e.s...)), Iface{}}
	}
	verify := func(in *Interp, pub []byte, msg, sig []Value) Value {
		if x, _ := parsePub(pub); x == nil {
			return false
		}
		return in.verifyIdeal("sha", pub, msg, sig)
	}
	const tm = "github.com/tendermint/tendermint/crypto/secp256k1"
	reg("("+tm+".PrivKey).Sign", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return sign(in, in.concBytes(a[0]), in.byteSlice(a[1]))
	}))
	reg("("+tm+".PubKey).VerifySignature", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return verify(in, in.concBytes(a[0]), in.byteSlice(a[1]), in.byteSlice(a[2]))
	}))
	reg(tm+".GenPrivKey", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n, _ := in.side["genpriv"].(int)
		in.side["genpriv"] = n + 1
		h := sha256.Sum256([]byte(fmt.Sprintf("key%d", n)))
		return bytesToSlice(h[:])
	}))
	const ck = "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	keyOf := func(in *Interp, v Value, n string) []byte {
		s := (*in.ptr(v)).(Struct)
		return in.concBytes(s[fieldIdx(in.eng.typeOf(ck, n), "Key")])
	}
	reg("(*"+ck+".PrivKey).Sign", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return sign(in, keyOf(in, a[0], "PrivKey"), in.byteSlice(a[1]))
	}))
	reg("(*"+ck+".PubKey).VerifySignature", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return verify(in, keyOf(in, a[0], "PubKey"), in.byteSlice(a[1]), in.byteSlice(a[2]))
	}))
}

// hashMethod implements hash.Hash for the ideal hashes.
func hashMethod(o *Opaque, name string) func(in *Interp, g *Gor, a []Value) Value {
	buf := o.v.(*[]Value)
	switch name {
	case "Write":
		return func(in *Interp, g *Gor, a []Value) Value {
			b := in.byteSlice(a[len(a)-1])
			*buf = append(append([]Value(nil), *buf...), b...)
			return Tuple{uint64(len(b)), Iface{}}
		}
	case "Sum":
		return func(in *Interp, g *Gor, a []Value) Value {
			var h []Value
			if o.kind == "sha256" {
				h = in.sha256(*buf)
			} else {
				h = in.idealHash("ripemd", 20, *buf, func(b []byte) []byte { s := sha256.Sum256(append([]byte("ripemd"), b...)); return s[:20] })
			}
			pre := a[len(a)-1].(SliceV).s
			return SliceV{s: append(append([]Value{}, pre...), h...)}
		}
	case "Reset":
		return func(in *Interp, g *Gor, a []Value) Value { *buf = nil; return nil }
	case "Size":
		return func(in *Interp, g *Gor, a []Value) Value { return uint64(32) }
	case "BlockSize":
		return func(in *Interp, g *Gor, a []Value) Value { return uint64(64) }
	}
	return nil
}
