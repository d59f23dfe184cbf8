package tss

import (
	"sort"
	"strconv"
	"strings"

	"github.com/rs/zerolog"

	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

func c14Server() *TssServer { return &TssServer{logger: zerolog.Nop()} }

// c14Strs returns n strings of the given length without commas (keys and base64 messages have none).
func c14Strs(name string, n, l int) []string {
	var out []string
	for i := 0; i < n; i++ {
		b := verifrt.Bytes(name, l)
		for j := range b {
			verifrt.Assume(b[j] != ',')
		}
		out = append(out, string(b))
	}
	return out
}

// C14: the order of the keys does not matter.
// bound: 1..3 (quick) / 1..4 (thorough) keys of any 2 bytes, every reordering; any block height and a 1-byte version on either side being the same
func VerifH_C14_KeygenOrder() {
	max := 3
	if verifrt.Thorough() {
		max = 4
	}
	s := c14Server()
	keys := c14Strs("key", 1+verifrt.Choose("n", max), 2)
	other := c14Perm(keys)
	height, ver := verifrt.Int64("height"), verifrt.Str("version", 1)
	r1 := keygen.NewRequest(append([]string{}, keys...), height, ver)
	r2 := keygen.NewRequest(append([]string{}, other...), height, ver)
	id1, err1 := s.requestToMsgId(r1)
	id2, err2 := s.requestToMsgId(r2)
	verifrt.Reach("done")
	verifrt.Assert(err1 == nil && err2 == nil && id1 != "", "C14-id-derived")
	verifrt.Assert(id1 == id2, "C14-independent-of-the-order")
	verifrt.Assert(c14Same(r1.Keys, keys) && c14Same(r2.Keys, keys), "C14-request-not-altered")
	id3, err3 := s.requestToMsgId(r1)
	verifrt.Assert(err3 == nil && id3 == id1, "C14-independent-of-the-order")
}

// C14: the order of signers and messages does not matter.
// bound: 1..2 (quick) / 1..3 (thorough) messages of any 2 bytes and 0..2 (quick) / 0..3 (thorough) signers of any 2 bytes, every reordering
func VerifH_C14_KeysignOrder() {
	max := 2
	if verifrt.Thorough() {
		max = 3
	}
	s := c14Server()
	msgs := c14Strs("msg", 1+verifrt.Choose("m", max), 2)
	keys := c14Strs("key", verifrt.Choose("n", max+1), 2)
	r1 := keysign.NewRequest("pool", append([]string{}, msgs...), 10, append([]string{}, keys...), "0.14.0")
	r2 := keysign.NewRequest("pool", c14Perm(msgs), 10, c14Perm(keys), "0.14.0")
	id1, err1 := s.requestToMsgId(r1)
	id2, err2 := s.requestToMsgId(r2)
	verifrt.Reach("done")
	verifrt.Assert(err1 == nil && err2 == nil && id1 != "", "C14-id-derived")
	verifrt.Assert(id1 == id2, "C14-independent-of-the-order")
	verifrt.Assert(c14Same(r1.Messages, msgs) && c14Same(r2.Messages, msgs), "C14-request-not-altered")
	verifrt.Assert(c14Same(r1.SignerPubKeys, keys) && c14Same(r2.SignerPubKeys, keys), "C14-request-not-altered")
}

// C14: keygen requests for other keys have other ids.
// bound: 1..2 (quick) / 1..3 (thorough) keys of any 3 bytes on either side; hashing is taken to be collision-free
func VerifH_C14_KeygenDiffer() {
	max := 2
	if verifrt.Thorough() {
		max = 3
	}
	s := c14Server()
	a := c14Strs("key", 1+verifrt.Choose("n", max), 3)
	b := c14Strs("key", 1+verifrt.Choose("n", max), 3)
	same := c14Same(a, b)
	id1, err1 := s.requestToMsgId(keygen.NewRequest(append([]string{}, a...), 10, "0.14.0"))
	id2, err2 := s.requestToMsgId(keygen.NewRequest(append([]string{}, b...), 10, "0.14.0"))
	verifrt.Assert(err1 == nil && err2 == nil, "C14-id-derived")
	if same {
		verifrt.Reach("same")
	} else {
		verifrt.Reach("differ")
	}
	verifrt.Assert((id1 == id2) == same, "C14-differs-between-requests")
}

// C14: keysign requests for other messages or signers have other ids.
// bound: 1..2 messages of any 1..2 bytes and 0..1 (quick) / 0..2 (thorough) signers of any 3 bytes on either side; hashing is taken to be collision-free
// outside: messages that are longer than a key (see Absorb)
func VerifH_C14_KeysignDiffer() {
	kmax := 2
	if verifrt.Thorough() {
		kmax = 3
	}
	s := c14Server()
	ma := c14Strs("msg", 1+verifrt.Choose("m", 2), 1+verifrt.Choose("len", 2))
	mb := c14Strs("msg", 1+verifrt.Choose("m", 2), 1+verifrt.Choose("len", 2))
	ka := c14Strs("key", verifrt.Choose("n", kmax), 3)
	kb := c14Strs("key", verifrt.Choose("n", kmax), 3)
	same := c14Same(ma, mb) && c14Same(ka, kb)
	id1, err1 := s.requestToMsgId(keysign.NewRequest("pool", append([]string{}, ma...), 10, append([]string{}, ka...), "0.14.0"))
	id2, err2 := s.requestToMsgId(keysign.NewRequest("pool", append([]string{}, mb...), 10, append([]string{}, kb...), "0.14.0"))
	verifrt.Assert(err1 == nil && err2 == nil, "C14-id-derived")
	if same {
		verifrt.Reach("same")
	} else {
		verifrt.Reach("differ")
	}
	verifrt.Assert((id1 == id2) == same, "C14-differs-between-requests")
}

// c14Text is the text the session id is a hash of at the time of writing.
func c14Text(msgs, keys []string) string {
	m, k := append([]string{}, msgs...), append([]string{}, keys...)
	sort.Strings(m)
	sort.Strings(k)
	return strings.Join(m, ",") + strings.Join(k, "")
}

// C14: a message long enough to hold the text of a key.
// bound: one message of 1 or 4 bytes, 0..2 signers of 3 bytes, against one of the same kind or a keygen request of 1..2 keys of 3 bytes
func VerifH_C14_Absorb() {
	s := c14Server()
	ma := c14Strs("msg", 1, []int{1, 3, 4}[verifrt.Choose("len", 3)])
	ka := c14Strs("key", verifrt.Choose("n", 3), 3)
	id1, err1 := s.requestToMsgId(keysign.NewRequest("pool", append([]string{}, ma...), 10, append([]string{}, ka...), "0.14.0"))
	var id2 string
	var err2 error
	same, ambiguous := false, false
	keygenReq := verifrt.Choose("keygen", 2) == 1
	if keygenReq {
		kb := c14Strs("key", 1+verifrt.Choose("n", 2), 3)
		ambiguous = c14Text(ma, ka) == c14Text(nil, kb)
		id2, err2 = s.requestToMsgId(keygen.NewRequest(append([]string{}, kb...), 10, "0.14.0"))
	} else {
		mb := c14Strs("msg", 1, []int{1, 4}[verifrt.Choose("len", 2)])
		kb := c14Strs("key", verifrt.Choose("n", 3), 3)
		same = c14Same(ma, mb) && c14Same(ka, kb)
		ambiguous = c14Text(ma, ka) == c14Text(mb, kb)
		id2, err2 = s.requestToMsgId(keysign.NewRequest("pool", append([]string{}, mb...), 10, append([]string{}, kb...), "0.14.0"))
	}
	verifrt.Assert(err1 == nil && err2 == nil, "C14-id-derived")
	switch {
	case same:
		verifrt.Reach("same")
		verifrt.Assert(id1 == id2, "C14-independent-of-the-order")
	case ambiguous && keygenReq:
		verifrt.Reach("keygen")
		verifrt.Assert(id1 != id2, "C14-keygen-shares-the-id-of-a-keysign")
	case ambiguous:
		verifrt.Reach("ambiguous")
		verifrt.Assert(id1 != id2, "C14-message-holding-a-key")
	default:
		verifrt.Reach("differ")
		verifrt.Assert(id1 != id2, "C14-differs-between-requests")
	}
}

// C14: anything that is not a request.
// bound: nil, a string, an int, pointers to requests
func VerifH_C14_Unknown() {
	s := c14Server()
	var r interface{}
	switch verifrt.Choose("kind", 5) {
	case 0:
	case 1:
		r = verifrt.Str("s", 2)
	case 2:
		r = verifrt.Int("i")
	case 3:
		r = &keygen.Request{Keys: []string{"a"}}
	case 4:
		r = &keysign.Request{Messages: []string{"a"}}
	}
	verifrt.Reach("done")
	id, err := s.requestToMsgId(r)
	verifrt.Assert(err != nil && id == "", "C14-unknown-request-is-an-error")
}

// C14: requests as they are in use.
// bound: 1, 4 or 14 real keys and 1, 3 or 11 messages of 44 characters, rotated by any number of places or reversed; in the other request one key or one message (the first, a middle or the last one) has any other character at its beginning, in its middle or at its end, or is missing
func VerifH_C14_Real() {
	s := c14Server()
	keys := append([]string{}, verifnet.ManyKeys[:[]int{1, 4, 14}[verifrt.Choose("keys", 3)]]...)
	var msgs []string
	isKeygen := verifrt.Choose("keygen", 2) == 1
	if !isKeygen {
		for i, n := 0, []int{1, 3, 11}[verifrt.Choose("messages", 3)]; i < n; i++ {
			msgs = append(msgs, strings.Repeat("bWVzc2FnZQ", 4)+strconv.Itoa(1000+7*i))
		}
	}
	id := func(m, k []string) string {
		var x string
		var err error
		if isKeygen {
			x, err = s.requestToMsgId(keygen.NewRequest(k, 10, "0.14.0"))
		} else {
			x, err = s.requestToMsgId(keysign.NewRequest("pool", m, 10, k, "0.14.0"))
		}
		verifrt.Assert(err == nil && x != "", "C14-id-derived")
		return x
	}
	one := id(append([]string{}, msgs...), append([]string{}, keys...))
	list := append([]string{}, keys...)
	ofMsgs := !isKeygen && verifrt.Choose("of the messages", 2) == 1
	if ofMsgs {
		list = append([]string{}, msgs...)
	}
	same := true
	switch n := len(list); verifrt.Choose("change", 3) {
	case 0:
		if r := verifrt.Choose("rotated by", n); r > 0 {
			list = append(append([]string{}, list[r:]...), list[:r]...)
		} else {
			for i := 0; i < n/2; i++ {
				list[i], list[n-1-i] = list[n-1-i], list[i]
			}
		}
	case 1:
		i := []int{0, n / 2, n - 1}[verifrt.Choose("which", 3)]
		x := list[i]
		at := []int{0, len(x) / 2, len(x) - 1}[verifrt.Choose("place", 3)]
		c := verifrt.Bytes("char", 1)
		verifrt.Assume(c[0] != ',')
		list[i] = x[:at] + string(c) + x[at+1:]
		same = list[i] == x
	case 2:
		if n == 1 {
			return
		}
		i := []int{0, n / 2, n - 1}[verifrt.Choose("which", 3)]
		list = append(list[:i], list[i+1:]...)
		same = false
	}
	if ofMsgs {
		msgs = list
	} else {
		keys = list
	}
	two := id(append([]string{}, msgs...), append([]string{}, keys...))
	if same {
		verifrt.Reach("same")
		verifrt.Assert(one == two, "C14-independent-of-the-order")
	} else {
		verifrt.Reach("differ")
		verifrt.Assert(one != two, "C14-differs-between-requests")
	}
}
