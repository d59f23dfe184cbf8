package conversion

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"math/big"

	tcrypto "github.com/binance-chain/tss-lib/crypto"
	"github.com/btcsuite/btcd/btcec"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	tmcrypto "github.com/tendermint/tendermint/crypto"
	"github.com/tendermint/tendermint/crypto/ed25519"

	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// c30Raw is a key of n bytes, two of them symbolic.
func c30Raw(n int) []byte {
	raw := make([]byte, n)
	for i := range raw {
		raw[i] = byte(3*i + 1)
	}
	if n > 0 {
		raw[0], raw[n-1] = verifrt.Byte("first"), verifrt.Byte("last")
	}
	if n > 31 {
		raw[31] = verifrt.Byte("31")
	}
	return raw
}

// C30: the private key given to a node.
// bound: keys of 0, 1, 31, 32, 33 and 64 bytes with any first byte, last byte and byte 31 in lower- or upper-case hexadecimal; any character in place of the first, the 33rd or the last digit, or one digit missing
// outside: other lengths
func VerifH_C30_PrivateKey() {
	n := []int{0, 1, 31, 32, 33, 64}[verifrt.Choose("length", 6)]
	raw := c30Raw(n)
	text := []byte(hex.EncodeToString(raw))
	good := n >= 32
	if n > 0 {
		switch verifrt.Choose("text", 4) {
		case 1:
			text = bytes.ToUpper(text)
		case 2:
			text = text[:len(text)-1]
			good = false
		case 3:
			at := []int{0, 32, len(text) - 1}[verifrt.Choose("at", 3)]
			if at >= len(text) {
				at = 0
			}
			b := verifrt.Byte("digit")
			text[at] = b
			var v byte
			switch {
			case b >= '0' && b <= '9':
				v = b - '0'
			case b >= 'a' && b <= 'f':
				v = b - 'a' + 10
			case b >= 'A' && b <= 'F':
				v = b - 'A' + 10
			default:
				good = false
			}
			if at%2 == 0 {
				raw[at/2] = raw[at/2]&15 | v<<4
			} else {
				raw[at/2] = raw[at/2]&240 | v
			}
		}
	}
	k, err := GetPriKey(base64.StdEncoding.EncodeToString(text))
	verifrt.Assert((err == nil) == good, "C30-refused-exactly-when-malformed")
	if err != nil {
		verifrt.Reach("refused")
		verifrt.Assert(k == nil, "C30-no-key-with-an-error")
		return
	}
	verifrt.Reach("accepted")
	verifrt.Assert(c30Same(k.Bytes(), raw[:32]), "C30-key-is-the-one-given")
	b, err := GetPriKeyRawBytes(k)
	verifrt.Assert(err == nil && c30Same(b, raw[:32]), "C30-raw-bytes-are-the-key")
	b[0]++
	verifrt.Assert(c30Same(k.Bytes(), raw[:32]), "C30-raw-bytes-are-a-copy")
}

func c30Same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	var d byte
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

// C30: text that is not base64.
// bound: the base64 form of a key with any byte in place of its first, 45th or last character, or cut short by 1..3 characters
func VerifH_C30_NotBase64() {
	raw := make([]byte, 32)
	for i := range raw {
		raw[i] = byte(7*i + 1)
	}
	text := []byte(base64.StdEncoding.EncodeToString([]byte(hex.EncodeToString(raw))))
	cut := verifrt.Choose("cut", 4)
	if cut > 0 {
		_, err := GetPriKey(string(text[:len(text)-cut]))
		verifrt.Assert(err != nil, "C30-refused-exactly-when-malformed")
		verifrt.Reach("cut")
		return
	}
	at := []int{0, 44, len(text) - 1}[verifrt.Choose("at", 3)]
	old := text[at]
	text[at] = verifrt.Byte("character")
	k, err := GetPriKey(string(text))
	if text[at] == old {
		verifrt.Reach("unchanged")
		verifrt.Assert(err == nil && bytes.Equal(k.Bytes(), raw), "C30-key-is-the-one-given")
		return
	}
	verifrt.Reach("changed")
	if err == nil {
		verifrt.Assert(!bytes.Equal(k.Bytes(), raw) || at > 2*32, "C30-key-is-the-one-given")
	}
	b := text[at]
	if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '+' || b == '/' || b == '=' || b == '\n' || b == '\r') {
		verifrt.Reach("not base64")
		verifrt.Assert(err != nil, "C30-refused-exactly-when-malformed")
	}
}

// c30Keys are private keys whose public keys have coordinates of different
// lengths and parities.
var c30Keys = []string{
	"0000000000000000000000000000000000000000000000000000000000000001",
	"0000000000000000000000000000000000000000000000000000000000000002",
	"0000000000000000000000000000000000000000000000000000000000000006",
	"00000000000000000000000000000000000000000000000000000000000000ff",
	"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140",
	"c94be8ca9e5e43a2b1e9bd3ad4ce5b4ea6a6e0a2fbb2b1a6e9e1b6b2a9a86d5e",
}

// C30: the node's key, its public key and its peer identity belong together.
// bound: 6 private keys
// stub: the curve arithmetic runs natively
func VerifH_C30_Identity() {
	SetupBech32Prefix()
	d := c30Keys[verifrt.Choose("key", len(c30Keys))]
	k, err := GetPriKey(base64.StdEncoding.EncodeToString([]byte(d)))
	verifrt.Assert(err == nil, "C30-refused-exactly-when-malformed")
	raw, err := GetPriKeyRawBytes(k)
	verifrt.Assert(err == nil && hex.EncodeToString(raw) == d, "C30-raw-bytes-are-the-key")
	lk, err := crypto.UnmarshalSecp256k1PrivateKey(raw)
	verifrt.Assert(err == nil, "setup")
	id, err := peer.IDFromPublicKey(lk.GetPublic())
	verifrt.Assert(err == nil, "setup")
	name, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: k.PubKey().Bytes()})
	verifrt.Assert(err == nil, "setup")
	p, err := GetPeerIDFromPubKey(name)
	verifrt.Assert(err == nil && p == id, "C30-peer-identity-is-that-of-the-key")
	back, err := GetPubKeyFromPeerID(id.String())
	verifrt.Assert(err == nil && back == name, "C30-peer-identity-is-that-of-the-key")
	ok, err := CheckKeyOnCurve(name)
	verifrt.Assert(ok && err == nil, "C30-public-key-is-on-the-curve")
	verifrt.Reach("done")
}

// C30: keys of another kind are refused.
// bound: no key, an Ed25519 key, a secp256k1 key of another representation
func VerifH_C30_OtherKeys() {
	var k tmcrypto.PrivKey
	if verifrt.Choose("kind", 2) == 1 {
		k = ed25519.PrivKey(make([]byte, 64))
	}
	_, err := GetPriKeyRawBytes(k)
	verifrt.Assert(err != nil, "C30-other-keys-are-refused")
	verifrt.Reach("done")
}

// c30Multiples of the generator: even and odd, long and short coordinates (the
// X of 153, 246 and 886, the Y of 122 and 533 have 31 bytes).
var c30Multiples = []int64{1, 2, 3, 6, 122, 153, 246, 533, 886, 65537}

// C30: the pool key and address are those of the group's point.
// bound: 10 multiples of the generator and their negatives, some with coordinates of fewer than 32 bytes; points off the curve: either coordinate one off, exchanged, zero, beyond the field, or no point
// stub: the curve arithmetic runs natively
func VerifH_C30_Pool() {
	SetupBech32Prefix()
	curve := btcec.S256()
	k := big.NewInt(c30Multiples[verifrt.Choose("multiple", len(c30Multiples))])
	_, pub := btcec.PrivKeyFromBytes(curve, k.Bytes())
	x, y := pub.X, pub.Y
	field, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	on := true
	one := big.NewInt(1)
	switch verifrt.Choose("point", 9) {
	case 1:
		y = new(big.Int).Sub(field, y)
	case 2:
		x, on = new(big.Int).Add(x, one), false
	case 3:
		y, on = new(big.Int).Add(y, one), false
	case 4:
		x, y, on = y, x, false
	case 5:
		x, y, on = new(big.Int), new(big.Int), false
	case 6:
		y, on = new(big.Int), false
	case 7:
		y, on = new(big.Int).Sub(y, one), false
	case 8:
		_, _, err := GetTssPubKey(nil)
		verifrt.Assert(err != nil, "C30-point-off-the-curve-is-refused")
		return
	}
	p := tcrypto.NewECPointNoCurveCheck(curve, x, y)
	key, addr, err := GetTssPubKey(p)
	verifrt.Assert((err == nil) == on, "C30-point-off-the-curve-is-refused")
	if err != nil {
		verifrt.Reach("refused")
		verifrt.Assert(key == "" && len(addr) == 0, "C30-point-off-the-curve-is-refused")
		return
	}
	verifrt.Reach("accepted")
	raw := make([]byte, 33)
	raw[0] = 2 + byte(y.Bit(0))
	b := x.Bytes()
	copy(raw[33-len(b):], b)
	pk := &coskey.PubKey{Key: raw}
	want, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, pk)
	verifrt.Assert(err == nil && key == want, "C30-pool-key-is-that-of-the-point")
	verifrt.Assert(bytes.Equal(addr, pk.Address()), "C30-pool-address-is-that-of-the-point")
	dec, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, key)
	verifrt.Assert(err == nil && bytes.Equal(dec.Bytes(), raw), "C30-pool-key-is-that-of-the-point")
	ok, err := CheckKeyOnCurve(key)
	verifrt.Assert(ok && err == nil, "C30-public-key-is-on-the-curve")
}
