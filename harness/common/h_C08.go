package common

import (
	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C08: whatever arrives, the members blamed for a round are those no share of that round came from.
// bound: committee of four; 3 messages from two (thorough: all three) other members in any order, each a batch with one share of one of two unicast or two broadcast rounds (symbolic content), claiming to be of its round or of another one, correctly signed or not, a broadcast one correctly signed confirmed by another member
// outside: larger committees; empty batches
// stub: tss-lib parties record what they are handed and accept it; signatures and SHA-256 are ideal
// limit: 240s
func VerifH_C08_HeardFrom() {
	const n = 4
	s := verifNewSession(n, 0, "m")
	type heard struct{ from, round int }
	got, maybe := map[heard]bool{}, map[heard]bool{}
	bcast := verifrt.Choose("broadcast", 2) == 1
	rounds := []int{0, 2}
	if bcast {
		rounds = []int{1, 3}
	}
	senders := 2
	if verifrt.Thorough() {
		senders = 3
	}
	for i := 0; i < 3; i++ {
		from := 1 + verifrt.Choose("from", senders)
		r := verifrt.Choose("round", 2)
		w := s.share(from, rounds[r], bcast, s.entry(from, rounds[r], bcast, "m", verifrt.Bytes("content", 1)))
		claim := r
		good := true
		switch verifrt.Choose("variant", 3) {
		case 1:
			claim = 1 - r
			w.RoundInfo = verifRounds[rounds[claim]].RoundMsg
		case 2:
			good = false
			w.Sig = verifSign(s.priv[1+from%3], w.Message, verifMsgID)
		}
		s.deliver(messages.TSSKeySignMsg, s.peers[from], verifJSON(w))
		if bcast && good {
			h, err := conversion.BytesToHashString(w.Message)
			verifrt.Assert(err == nil, "setup")
			s.deliver(messages.TSSKeySignVerMsg, s.peers[1+from%3], verifJSON(&messages.BroadcastConfirmMessage{Key: w.GetCacheKey(), Hash: h}))
		}
		s.sent()
		if good && claim == r {
			got[heard{from, r}] = true
		} else if good {
			maybe[heard{from, r}] = true
		}
		if bcast && claim != r {
			// it occupies the place of a share of the round it claims to be of
			maybe[heard{from, claim}] = true
		}
	}
	for r, round := range rounds {
		var nodes []blame.Node
		var err error
		if bcast {
			nodes, err = s.t.GetBlameMgr().GetBroadcastBlame(verifRounds[round].RoundMsg)
		} else {
			nodes, err = s.t.GetBlameMgr().GetUnicastBlame(verifRounds[round].RoundMsg)
		}
		any := false
		for m := 1; m < n; m++ {
			any = any || got[heard{m, r}] && !maybe[heard{m, r}]
		}
		if !any && (err != nil || len(nodes) == 0) {
			verifrt.Reach("nothing received")
			continue
		}
		verifrt.Assert(err == nil, "C08-blame-computed")
		for m := 0; m < n; m++ {
			times := 0
			for _, b := range nodes {
				if b.Pubkey == s.keys[m] {
					times++
				}
			}
			switch {
			case m == 0:
				verifrt.Assert(times == 0, "C08-never-blames-itself")
			case got[heard{m, r}] && !maybe[heard{m, r}]:
				verifrt.Reach("heard from")
				verifrt.Assert(times == 0, "C08-member-heard-from-is-not-blamed")
			case !got[heard{m, r}] && !maybe[heard{m, r}]:
				verifrt.Reach("not heard from")
				verifrt.Assert(times == 1, "C08-member-not-heard-from-is-blamed-once")
			}
		}
	}
}
