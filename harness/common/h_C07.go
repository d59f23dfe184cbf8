package common

import (
	"bytes"
	"errors"

	btss "github.com/binance-chain/tss-lib/tss"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// c07Nodes asserts that exactly the given members are blamed, each with the given message and signature (nil: blank).
func c07Nodes(s *verifSession, want map[int]*messages.WireMessage) {
	nodes := s.t.GetBlameMgr().GetBlame().BlameNodes
	for _, n := range nodes {
		found := false
		for m, w := range want {
			if n.Pubkey != s.keys[m] {
				continue
			}
			found = true
			if w == nil {
				verifrt.Reach("no evidence")
				verifrt.Assert(len(n.BlameData) == 0 && len(n.BlameSignature) == 0, "C07-no-evidence-when-none-was-stored")
			} else {
				verifrt.Assert(bytes.Equal(n.BlameData, w.Message), "C07-evidence-is-the-message-of-the-culprit")
				verifrt.Assert(bytes.Equal(n.BlameSignature, w.Sig), "C07-evidence-is-the-signature-of-the-culprit")
			}
		}
		verifrt.Assert(found, "C07-only-the-culprits-are-blamed")
	}
	for m := range want {
		found := false
		for _, n := range nodes {
			found = found || n.Pubkey == s.keys[m]
		}
		verifrt.Assert(found, "C07-every-culprit-is-blamed")
	}
}

// C07: the culprits tss-lib names are blamed with their own messages, and refused from then on.
// bound: committee of three, two instances; before: each of the two others sent its share of broadcast round 2 (symbolic contents) or not, possibly a second time with another content; then a broadcast share of round 2 or 4 or a unicast share of round 1, for one or both instances, is refused by an instance that names any subset of the others (by the party object of the session, or an equal one) or a party that is not in the session; afterwards both others send a share of another round
// outside: larger committees; culprits named for several different errors
// stub: tss-lib parties record what they are handed and fail on request; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C07_Culprits() {
	s := verifNewSession(3, 0, c05Insts...)
	// stored[r][m] is the message of broadcast round r this node has of member m
	stored := map[int]map[int]*messages.WireMessage{1: {}, 3: {}}
	b := verifrt.Bytes("contents", 8)
	// the first byte tells the uses apart
	c := func(kind byte, i int) []byte { return []byte{kind, b[i]} }
	for m := 1; m <= 2; m++ {
		k := verifrt.Choose("earlier share", 3)
		if k > 0 {
			w := s.share(m, 1, true, s.entry(m, 1, true, c05Insts[0], c(byte(m), m)))
			s.deliver(messages.TSSKeySignMsg, s.peers[m], verifJSON(w))
			stored[1][m] = w
		}
		if k > 1 {
			// a share that is not applied any more is no evidence
			w := s.share(m, 1, true, s.entry(m, 1, true, c05Insts[0], c(byte(m), 5+m)))
			s.deliver(messages.TSSKeySignMsg, s.peers[m], verifJSON(w))
			verifrt.Reach("sent again")
		}
	}
	verifrt.Assert(len(s.t.GetBlameMgr().GetBlame().BlameNodes) == 0, "C07-nobody-is-blamed-without-a-failure")
	round := []int{0, 1, 3}[verifrt.Choose("failing round", 3)]
	bcast := round != 0
	who := verifrt.Choose("culprits", 5) // bits 0, 1: members 1, 2; 4: unknown
	fresh := verifrt.Choose("equal party", 2) == 1
	named := func(m int) *btss.PartyID {
		if !fresh {
			return s.ids[m]
		}
		p := btss.NewPartyID(s.ids[m].Id, s.ids[m].Moniker, s.ids[m].KeyInt())
		p.Index = s.ids[m].Index
		return p
	}
	fails := 0
	s.inst[c05Insts[1]].fail = func(h verifHand) *btss.Error {
		if fails++; fails > 1 {
			return nil
		}
		var culprits []*btss.PartyID
		for m := 1; m <= 2; m++ {
			if who < 4 && who&m != 0 {
				culprits = append(culprits, named(m))
			}
		}
		if who == 4 {
			culprits = append(culprits, btss.NewPartyID("99", "", s.ids[1].KeyInt()))
		}
		return btss.NewError(errors.New("bad share"), "keysign", 1, s.ids[0], culprits...)
	}
	batch := []BulkWireMsg{s.entry(1, round, bcast, c05Insts[1], c(3, 3))}
	if verifrt.Choose("with another share", 2) == 1 {
		// round 2 of the first instance may already be there
		batch = append(batch, s.entry(1, round, bcast, c05Insts[0], c(4, 4)))
	}
	w := s.share(1, round, bcast, batch...)
	if bcast {
		stored[round][1] = w
	}
	s.deliver(messages.TSSKeySignMsg, s.peers[1], verifJSON(w))
	verifrt.Assert(fails == 1, "C07-the-share-is-verified")
	want := map[int]*messages.WireMessage{}
	for m := 1; m <= 2; m++ {
		if who < 4 && who&m != 0 {
			want[m] = nil
			if bcast {
				want[m] = stored[round][m]
			}
		}
	}
	verifrt.Assert(s.t.GetBlameMgr().GetBlame().FailReason == blame.TssBrokenMsg, "C07-reason")
	c07Nodes(s, want)
	verifrt.Assert(s.accepted(round, c05Insts[1], 1) == 0, "C07-a-wrong-share-is-not-accepted")
	s.sent()
	// from now on
	for m := 1; m <= 2; m++ {
		before := s.handed()
		s.deliver(messages.TSSKeySignMsg, s.peers[m], verifJSON(s.share(m, 4, true, s.entry(m, 4, true, c05Insts[0], c(5, 5)))))
		if _, bad := want[m]; bad {
			verifrt.Reach("culprit refused")
			verifrt.Assert(s.handed() == before, "C07-later-shares-of-a-culprit-are-refused")
		} else {
			verifrt.Assert(s.handed() == before+1, "C07-others-are-not-refused")
		}
		s.sent()
	}
	c07Nodes(s, want)
}

// C07: several shares of one batch fail at once.
// bound: committee of three, two instances; one batch of one member with a share for each instance (symbolic contents), both refused, each naming any non-empty subset of the two others; two workers switched up to 1 (quick) / 2 (thorough) times
// outside: more shares in a batch
// stub: tss-lib parties record what they are handed and fail on request; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C07_Batch() {
	verifrt.NoSched()
	s := verifNewSession(3, 0, c05Insts...)
	c := verifrt.Bytes("contents", 3)
	stored := map[int]*messages.WireMessage{2: s.share(2, 1, true, s.entry(2, 1, true, c05Insts[0], c[:1]))}
	s.deliver(messages.TSSKeySignMsg, s.peers[2], verifJSON(stored[2]))
	named := 0
	for _, name := range c05Insts {
		who := 1 + verifrt.Choose("culprits", 3)
		named |= who
		s.inst[name].fail = func(h verifHand) *btss.Error {
			var l []*btss.PartyID
			for m := 1; m <= 2; m++ {
				if who&m != 0 {
					l = append(l, s.ids[m])
				}
			}
			return btss.NewError(errors.New("bad share"), "keysign", 1, s.ids[0], l...)
		}
	}
	stored[1] = s.share(1, 1, true, s.entry(1, 1, true, c05Insts[0], c[1:2]), s.entry(1, 1, true, c05Insts[1], c[2:3]))
	k := 1
	if verifrt.Thorough() {
		k = 2
	}
	verifrt.Sched(k)
	s.deliver(messages.TSSKeySignMsg, s.peers[1], verifJSON(stored[1]))
	verifrt.NoSched()
	want := map[int]*messages.WireMessage{}
	for m := 1; m <= 2; m++ {
		if named&m != 0 {
			want[m] = stored[m]
		}
	}
	verifrt.Reach("failed")
	c07Nodes(s, want)
	for m := 1; m <= 2; m++ {
		before := s.handed()
		s.deliver(messages.TSSKeySignMsg, s.peers[m], verifJSON(s.share(m, 0, false, s.entry(m, 0, false, c05Insts[0], c[:1]))))
		if named&m != 0 {
			verifrt.Assert(s.handed() == before, "C07-later-shares-of-a-culprit-are-refused")
		} else {
			verifrt.Assert(s.handed() == before+1, "C07-others-are-not-refused")
		}
	}
}

// C07: a failing hash check blames the owner of the share.
// bound: committees of four and five; a broadcast share (symbolic content) and reports of its hash by the others in ascending order, each the hash of the share or a hash of its own, and possibly by the owner itself; the share arriving before, between or after them
// outside: larger committees
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C07_HashCheck() {
	n := 4 + verifrt.Choose("committee", 2)
	const owner = 1
	s := verifNewSession(n, 0, "m")
	w := s.share(owner, 1, true, s.entry(owner, 1, true, "m", verifrt.Bytes("content", 1)))
	own, err := MsgToHashString(w.Message)
	verifrt.Assert(err == nil, "setup")
	at := verifrt.Choose("share arrives", 3)
	differ := "uvwxyz"
	failed := false
	here, count := false, map[string]int{}
	ownerVoted := false
	check := func() {
		s.sent()
		b := s.t.GetBlameMgr().GetBlame()
		if len(b.BlameNodes) == 0 && b.FailReason == "" {
			return
		}
		failed = true
		verifrt.Reach("hash check failed")
		verifrt.Assert(b.FailReason == blame.HashCheckFail, "C07-hash-check-reason")
		c07Nodes(s, map[int]*messages.WireMessage{owner: w})
		verifrt.Assert(s.handed() == 0, "C07-not-applied-when-the-hash-check-fails")
		// it fails only when the owner reported on its own share, or no hash has enough reports
		best, total := 0, 0
		for _, c := range count {
			total += c
			if c > best {
				best = c
			}
		}
		verifrt.Assert(ownerVoted || best < c04Threshold(n)-1, "C07-the-owner-is-blamed-only-for-a-disagreement")
	}
	k := 0
	for m := 1; m < n && !failed; m++ {
		if k == at && !here {
			here = true
			count[own]++
			s.deliver(messages.TSSKeySignMsg, s.peers[owner], verifJSON(w))
			check()
			if failed {
				break
			}
		}
		v := verifrt.Choose("report", 3)
		if v == 0 {
			continue
		}
		k++
		h := own
		if v == 2 {
			h = differ[m : m+1]
		}
		if m == owner {
			ownerVoted = true
		} else {
			count[h]++
		}
		s.deliver(messages.TSSKeySignVerMsg, s.peers[m], verifJSON(&messages.BroadcastConfirmMessage{Key: w.GetCacheKey(), Hash: h}))
		check()
		if s.handed() > 0 {
			verifrt.Reach("applied")
			return
		}
	}
	if !here {
		return
	}
	// with reports of enough members that all disagree the check has to fail
	total, best := 0, 0
	for _, c := range count {
		total += c
		if c > best {
			best = c
		}
	}
	if !ownerVoted && total >= c04Threshold(n) && best < c04Threshold(n)-1 {
		verifrt.Reach("all disagree")
		verifrt.Assert(failed, "C07-disagreement-is-blamed")
	}
}

// C07: a share of any round fails in a larger committee.
// bound: keygen or keysign of committees of 4 and 7 (thorough: 9 and 13), this node at the beginning, in the middle or at the end, 1 or 3 instances; all rounds before complete; in any round the shares of all members that precede the failing one (first or last in party order) have arrived; the instance names the first, the last, both, all others or only the owner
// outside: other subsets (see the committee of three)
// stub: tss-lib parties record what they are handed and fail on request; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C07_Large() {
	sign := verifrt.Choose("keysign", 2) == 1
	sizes := []int{4, 7}
	if verifrt.Thorough() {
		sizes = append(sizes, 9, 13)
	}
	n := sizes[verifrt.Choose("committee", len(sizes))]
	me := []int{0, n / 2, n - 1}[verifrt.Choose("me", 3)]
	insts := []string{"7:0"}
	if sign && n < 9 && verifrt.Choose("instances", 2) == 1 {
		insts = []string{"7:0", "7:1", "8:2"}
	}
	typ, ver, rounds := verifProtocol(sign)
	stop := verifrt.Choose("round", len(rounds))
	s := verifNewSession(n, me, insts...)
	var others []int
	for m := range s.ids {
		if m != me {
			others = append(others, m)
		}
	}
	failing := others[verifrt.Choose("failing", 2)*(len(others)-1)]
	var culprits []int
	switch verifrt.Choose("named", 5) {
	case 0:
		culprits = others[:1]
	case 1:
		culprits = others[len(others)-1:]
	case 2:
		culprits = []int{others[len(others)-1], others[0]}
	case 3:
		culprits = others
	default:
		culprits = []int{failing}
	}
	stored := map[int]*messages.WireMessage{}
	for k, r := range rounds[:stop+1] {
		bcast := !verifUnicast(r)
		for _, m := range others {
			var batch []BulkWireMsg
			for i, in := range insts {
				batch = append(batch, s.entry(m, r, bcast, in, []byte{byte(1 + i), byte(1 + m), byte(1 + r)}))
			}
			w := s.share(m, r, bcast, batch...)
			if k == stop {
				if bcast {
					stored[m] = w
				}
				if m == failing {
					s.inst[insts[len(insts)-1]].fail = func(h verifHand) *btss.Error {
						var l []*btss.PartyID
						for _, c := range culprits {
							l = append(l, s.ids[c])
						}
						return btss.NewError(errors.New("bad share"), "round", r, s.ids[me], l...)
					}
				}
			}
			s.deliver(typ, s.peers[m], verifJSON(w))
			if bcast {
				s.confirm(ver, m, w)
			}
			s.sent()
			if k == stop && m == failing {
				break
			}
		}
	}
	verifrt.Reach("failed")
	want := map[int]*messages.WireMessage{}
	for _, c := range culprits {
		want[c] = stored[c]
	}
	verifrt.Reach("no evidence")
	verifrt.Assert(s.t.GetBlameMgr().GetBlame().FailReason == blame.TssBrokenMsg, "C07-reason")
	c07Nodes(s, want)
	verifrt.Assert(len(s.t.GetBlameMgr().GetBlame().BlameNodes) == len(culprits), "C07-only-the-culprits-are-blamed")
	s.inst[insts[len(insts)-1]].fail = nil
	// the round goes on
	for _, m := range others {
		before := s.handed()
		r := 4 // of a round that was not there yet
		if stop >= 4 {
			r = 3
		}
		if !sign {
			r = 12
		}
		if sign && stop >= 3 {
			r = 13
		}
		if sign && stop == len(rounds)-1 {
			break
		}
		w := s.share(m, r, true, s.entry(m, r, true, insts[0], []byte{77}))
		s.deliver(typ, s.peers[m], verifJSON(w))
		s.confirm(ver, m, w)
		s.sent()
		if _, bad := want[m]; bad {
			verifrt.Assert(s.handed() == before, "C07-later-shares-of-a-culprit-are-refused")
		} else {
			verifrt.Assert(s.handed() == before+1, "C07-others-are-not-refused")
		}
	}
	c07Nodes(s, want)
}
