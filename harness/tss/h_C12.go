package tss

import (
	"bytes"
	"encoding/base64"
	"time"

	tsslibcommon "github.com/binance-chain/tss-lib/common"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// c12Check: one entry per requested message, each with the signature of that message.
func c12Check(msgs []string, resp keysign.Response) {
	verifrt.Assert(len(resp.Signatures) == len(msgs), "C12-one-entry-per-message")
	var got []string
	for _, s := range resp.Signatures {
		got = append(got, s.Msg)
		raw, err := base64.StdEncoding.DecodeString(s.Msg)
		verifrt.Assert(err == nil, "C12-message-unchanged")
		m, err := common.MsgToHashInt(raw)
		verifrt.Assert(err == nil, "setup")
		want := verifTag(m)
		r, err1 := base64.StdEncoding.DecodeString(s.R)
		t, err2 := base64.StdEncoding.DecodeString(s.S)
		v, err3 := base64.StdEncoding.DecodeString(s.RecoveryID)
		verifrt.Assert(err1 == nil && err2 == nil && err3 == nil, "C12-decodable")
		verifrt.Assert(bytes.Equal(r, want.R) && bytes.Equal(t, want.S) && bytes.Equal(v, want.SignatureRecovery), "C12-signature-of-this-message")
	}
	verifrt.Assert(c14Same(got, msgs), "C12-exactly-the-requested-messages")
}

// c12Sign is a keysign of the messages in which the instances finish in any order.
func c12Sign(raw [][]byte) {
	verifrt.NoSched()
	v := verifNewNode(3, 0)
	msgs := c12Encode(raw)
	v.expect, v.finish = len(msgs), len(msgs)
	v.order = func(n int) int { return verifrt.Choose("finishes", n) }
	resp, err := v.s.KeySign(keysign.NewRequest(v.name, append([]string{}, msgs...), 10, append([]string{}, v.keys...), "0.13.0"))
	verifrt.Assert(err == nil && resp.Status == common.Success, "C12-signed")
	verifrt.Reach("signed")
	c12Check(msgs, resp)
}

// C12: a batch signed by this node and its peers.
// bound: batches of 1..3 (quick) / 1..4 (thorough) messages of 1 byte each, any content (equal messages included), so any order in the request; the signing instances finish in any order; committee of 3, everybody signs
// stub: the multi-party computation is replaced by one that gives every instance a signature of its own
// outside: how tss-lib computes a signature
func VerifH_C12_Signed() {
	max := 3
	if verifrt.Thorough() {
		max = 4
	}
	var raw [][]byte
	for i, n := 0, 1+verifrt.Choose("n", max); i < n; i++ {
		raw = append(raw, verifrt.Bytes("m", 1))
	}
	c12Sign(raw)
}

// C12: messages of different lengths, so that the order of the bytes, of the encodings and of the numbers differ.
// bound: 2 (quick) / 2..3 (thorough) messages of 1..3 bytes each, any content
func VerifH_C12_Lengths() {
	n := 2
	if verifrt.Thorough() {
		n += verifrt.Choose("n", 2)
	}
	var raw [][]byte
	for i := 0; i < n; i++ {
		raw = append(raw, verifrt.Bytes("m", 1+verifrt.Choose("len", 3)))
	}
	c12Sign(raw)
}

// C12: messages longer than a hash, of which only the first 32 bytes count.
// bound: 2..3 messages of 32..34 bytes with one of two fixed 32-byte beginnings and any 0..2 further bytes
func VerifH_C12_Long() {
	var raw [][]byte
	for i, n := 0, 2+verifrt.Choose("n", 2); i < n; i++ {
		b := make([]byte, 32)
		b[31] = byte(1 + verifrt.Choose("begin", 2))
		raw = append(raw, append(b, verifrt.Bytes("m", verifrt.Choose("more", 3))...))
	}
	c12Sign(raw)
}

// C12: a node that does not sign gets the signatures from the others.
// bound: 2..3 32-byte messages requested in any order; the notification of one peer has the signatures in any order, the next one in the order of the messages
func VerifH_C12_Received() {
	verifrt.NoSched()
	v := verifNewNode(4, 3)
	var raw [][]byte
	for i, n := 0, 2+verifrt.Choose("n", 2); i < n; i++ {
		b := bytes.Repeat([]byte{byte(0x90 + 0x30*i)}, 32)
		raw = append(raw, b)
	}
	right := make([][]byte, len(raw)) // the order in which signatures are exchanged: descending
	for i := range raw {
		right[len(raw)-1-i] = raw[i]
	}
	msgs := c14Perm(c12Encode(raw))
	rest := append([][]byte{}, raw...)
	var first [][]byte
	for len(rest) > 0 {
		i := verifrt.Choose("sent", len(rest))
		first = append(first, rest[i])
		rest = append(append([][]byte{}, rest[:i]...), rest[i+1:]...)
	}
	req := keysign.NewRequest(v.name, append([]string{}, msgs...), 10, append([]string{}, v.keys[:3]...), "0.13.0")
	id, err := v.s.requestToMsgId(keysign.NewRequest(v.name, append([]string{}, msgs...), 10, append([]string{}, v.keys[:3]...), "0.13.0"))
	verifrt.Assert(err == nil, "setup")
	go func() {
		time.Sleep(time.Second)
		for k, order := range [][][]byte{first, right} {
			var sigs []*tsslibcommon.ECSignature
			for _, m := range order {
				sigs = append(sigs, v.poolSign(m))
			}
			v.notify(v.peers[k], id, messages.KeysignSignature_Success, sigs...)
		}
	}()
	resp, err := v.s.KeySign(req)
	verifrt.Assert(err == nil && resp.Status == common.Success, "C12-received")
	verifrt.Reach("received")
	verifrt.Assert(len(resp.Signatures) == len(msgs), "C12-one-entry-per-message")
	var got []string
	for _, s := range resp.Signatures {
		got = append(got, s.Msg)
		m, err := base64.StdEncoding.DecodeString(s.Msg)
		verifrt.Assert(err == nil, "C12-message-unchanged")
		want := v.poolSign(m)
		r, err1 := base64.StdEncoding.DecodeString(s.R)
		t, err2 := base64.StdEncoding.DecodeString(s.S)
		verifrt.Assert(err1 == nil && err2 == nil, "C12-decodable")
		verifrt.Assert(bytes.Equal(r, want.R) && bytes.Equal(t, want.S), "C12-signature-of-this-message")
	}
	verifrt.Assert(c14Same(got, msgs), "C12-exactly-the-requested-messages")
	verifrt.Assert(v.made == 0, "C12-no-signing-by-a-non-signer")
}

// C12: larger batches.
// bound: 5 or 11 messages of 32 bytes, requested in ascending or descending order or rotated by any number of places; the instances finish in the order they were started or in reverse
// stub: the multi-party computation is replaced by one that gives every instance a signature of its own
func VerifH_C12_Large() {
	n := []int{5, 11}[verifrt.Choose("n", 2)]
	var raw [][]byte
	for i := 0; i < n; i++ {
		raw = append(raw, bytes.Repeat([]byte{byte(0x10 + 0x13*i)}, 32))
	}
	if r := verifrt.Choose("rotated by", n); r > 0 {
		raw = append(append([][]byte{}, raw[r:]...), raw[:r]...)
	} else if verifrt.Choose("descending", 2) == 1 {
		for i := 0; i < n/2; i++ {
			raw[i], raw[n-1-i] = raw[n-1-i], raw[i]
		}
	}
	verifrt.NoSched()
	v := verifNewNode(3, 0)
	msgs := c12Encode(raw)
	v.expect, v.finish = len(msgs), len(msgs)
	last := verifrt.Choose("finishes", 2)
	v.order = func(n int) int { return last * (n - 1) }
	resp, err := v.s.KeySign(keysign.NewRequest(v.name, append([]string{}, msgs...), 10, append([]string{}, v.keys...), "0.13.0"))
	verifrt.Assert(err == nil && resp.Status == common.Success, "C12-signed")
	verifrt.Reach("signed")
	c12Check(msgs, resp)
}
