package p2p

import (
	"bytes"
	"crypto/sha256"
	"strconv"

	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

func c02Heights() int64 {
	hs := []int64{1, 9, 10, 1234567890123, -1, 1<<63 - 1, -1 << 63}
	return hs[verifrt.Choose("height", len(hs))]
}

// C02: members that hold the same set elect the same listed leader, the one
// whose hash of request id, height and member id is the smallest.
// bound: committees of 1..3 (quick) / 1..4 (thorough) distinct members with 2-byte symbolic ids, every order against every other, symbolic 2-byte request id, seven heights
// outside: larger committees, longer ids
// stub: sha256 is an ideal hash (distinct inputs have distinct, arbitrary digests)
func VerifH_C02_AgreedLeader() {
	max := 3
	if verifrt.Thorough() {
		max = 4
	}
	n := 1 + verifrt.Choose("members", max)
	ids := make([]string, n)
	for i := range ids {
		ids[i] = verifrt.Str("id", 2)
		for j := 0; j < i; j++ {
			verifrt.Assume(ids[i] != ids[j])
		}
	}
	msgID := verifrt.Str("msg", 2)
	h := c02Heights()
	// any permutation of the same list
	perm := append([]string(nil), ids...)
	for i := 0; i+1 < n; i++ {
		j := i + verifrt.Choose("swap", n-i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	in1 := append([]string(nil), ids...)
	l1, err := LeaderNode(msgID, h, ids)
	verifrt.Assert(err == nil, "C02-valid-input-has-a-leader")
	l2, err := LeaderNode(msgID, h, perm)
	verifrt.Assert(err == nil, "C02-valid-input-has-a-leader")
	verifrt.Reach("elected")
	verifrt.Assert(l1 == l2, "C02-same-leader-for-every-order")
	listed := false
	best := 0
	var bestSum []byte
	for i, id := range in1 {
		listed = verifrt.Or(listed, l1 == id)
		sum := sha256.Sum256([]byte(msgID + strconv.FormatInt(h, 10) + id))
		if bestSum == nil || bytes.Compare(sum[:], bestSum) < 0 {
			best, bestSum = i, sum[:]
		}
	}
	verifrt.Assert(listed, "C02-leader-is-a-member")
	verifrt.Assert(l1 == in1[best], "C02-documented-hash-ranking")
}

// C02: members listed more than once do not change the outcome.
// bound: two distinct members, one of them listed twice, at any place
// stub: sha256 is an ideal hash
func VerifH_C02_Repeated() {
	a, b := verifrt.Str("a", 2), verifrt.Str("b", 2)
	verifrt.Assume(a != b)
	lists := [][]string{{a, a, b}, {a, b, a}, {b, a, a}}
	l1, err := LeaderNode("m", 7, lists[verifrt.Choose("list", 3)])
	verifrt.Assert(err == nil, "C02-valid-input-has-a-leader")
	l2, err := LeaderNode("m", 7, []string{a, b})
	verifrt.Assert(err == nil, "C02-valid-input-has-a-leader")
	verifrt.Reach("elected")
	verifrt.Assert(l1 == l2, "C02-same-leader-for-every-order")
}

// C02: an empty list, an empty request id or height 0 has no leader.
// bound: lists of 0..2 members, request ids of 0..2 symbolic bytes, every height
func VerifH_C02_Refused() {
	ids := []string{"p", "q"}[:verifrt.Choose("members", 3)]
	msgID := verifrt.Str("msg", verifrt.Choose("msglen", 3))
	h := int64(0)
	if verifrt.Choose("zero", 2) == 1 {
		h = c02Heights()
	}
	l, err := LeaderNode(msgID, h, ids)
	if len(ids) == 0 || len(msgID) == 0 || h == 0 {
		verifrt.Reach("refused")
		verifrt.Assert(err != nil && l == "", "C02-no-leader-for-invalid-input")
		return
	}
	verifrt.Reach("accepted")
	verifrt.Assert(err == nil && l != "", "C02-valid-input-has-a-leader")
}

// C02: the leader of a request does not depend on the elections before it.
// bound: two elections on one node; committees of one to three out of five members (the same or another set), the same or another request id (symbolic byte), the same or another height
// outside: longer histories
// stub: sha256 is an ideal hash
func VerifH_C02_History() {
	sets := [][]string{{"p", "q"}, {"q", "r"}, {"q", "p"}, {"p", "q", "r"}, {"s", "t", "q"}, {"q"}}
	hs := []int64{7, 8, 77, -7}
	prev := sets[verifrt.Choose("set before", len(sets))]
	LeaderNode(verifrt.Str("msg before", 1), hs[verifrt.Choose("height before", len(hs))], append([]string(nil), prev...))
	ids := sets[verifrt.Choose("set", len(sets))]
	msgID, h := verifrt.Str("msg", 1), hs[verifrt.Choose("height", 2)]
	l, err := LeaderNode(msgID, h, append([]string(nil), ids...))
	verifrt.Assert(err == nil, "C02-valid-input-has-a-leader")
	verifrt.Reach("elected")
	best := 0
	var bestSum []byte
	for i, id := range ids {
		sum := sha256.Sum256([]byte(msgID + strconv.FormatInt(h, 10) + id))
		if bestSum == nil || bytes.Compare(sum[:], bestSum) < 0 {
			best, bestSum = i, sum[:]
		}
	}
	verifrt.Assert(l == ids[best], "C02-documented-hash-ranking")
}

// C02: large committees with ids as they are in use.
// bound: committees of 4..14 members with real ids, rotated by any number of places, or reversed; 3 session ids, two heights; and two members whose ids differ in one (symbolic) character at the beginning, in the middle or at the end, session ids of 64 characters, one of them symbolic
// stub: sha256 is an ideal hash where its input is symbolic
func VerifH_C02_RealIDs() {
	msgID := verifnet.AlikeSession(verifnet.Places[verifrt.Choose("place", 3)], "0")
	h := []int64{12, 1234567890123, -7}[verifrt.Choose("height", 3)]
	var ids, perm []string
	if verifrt.Choose("members are", 2) == 0 {
		n := 4 + verifrt.Choose("members", 11)
		ids = append([]string(nil), verifnet.ManyPeerIDs[:n]...)
		if r := verifrt.Choose("rotated by", n); r > 0 {
			perm = append(append(perm, ids[r:]...), ids[:r]...)
		} else {
			for i := range ids {
				perm = append(perm, ids[n-1-i])
			}
		}
	} else {
		at := []int{0, 25, 51}[verifrt.Choose("ids differ at", 3)]
		p := verifnet.PeerIDs[0]
		ids = []string{p, p[:at] + verifrt.Str("char", 1) + p[at+1:]}
		verifrt.Assume(ids[0] != ids[1])
		perm = []string{ids[1], ids[0]}
		msgID = verifnet.AlikeSession(verifnet.Places[verifrt.Choose("symbolic", 3)], verifrt.Str("msg", 1))
	}
	best := 0
	var bestSum []byte
	for i, id := range ids {
		sum := sha256.Sum256([]byte(msgID + strconv.FormatInt(h, 10) + id))
		if bestSum == nil || bytes.Compare(sum[:], bestSum) < 0 {
			best, bestSum = i, sum[:]
		}
	}
	want := ids[best]
	l1, err := LeaderNode(msgID, h, ids)
	verifrt.Assert(err == nil, "C02-valid-input-has-a-leader")
	l2, err := LeaderNode(msgID, h, perm)
	verifrt.Assert(err == nil, "C02-valid-input-has-a-leader")
	verifrt.Reach("elected")
	verifrt.Assert(l1 == l2, "C02-same-leader-for-every-order")
	verifrt.Assert(l1 == want, "C02-documented-hash-ranking")
}
