package common

import (
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C01: a broadcast share is applied as soon as t parties agree on it and not before.
// bound: committees of 2..10 (quick) / 2..13 (thorough); the share (symbolic content) arrives after any number of agreeing reports of the other members, then the rest report
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
func VerifH_C01_Confirmation() {
	max := 9
	if verifrt.Thorough() {
		max = 12
	}
	const owner = 1
	n := 2 + verifrt.Choose("n", max)
	t := 0
	for 3*(t+1) < 2*n {
		t++
	}
	at := verifrt.Choose("before", n-1)
	s := verifNewSession(n, 0, "m")
	w := s.share(owner, 1, true, s.entry(owner, 1, true, "m", verifrt.Bytes("content", 1)))
	h, err := conversion.BytesToHashString(w.Message)
	verifrt.Assert(err == nil, "setup")
	reports := 0
	for i := 0; i < n-1; i++ {
		if i == at {
			s.deliver(messages.TSSKeySignMsg, s.peers[owner], verifJSON(w))
			reports++
			s.sent()
			verifrt.Assert((s.handed() == 1) == (reports >= t), "C01-share-confirmed-by-the-threshold")
		}
		if i < n-2 {
			s.deliver(messages.TSSKeySignVerMsg, s.peers[2+i], verifJSON(&messages.BroadcastConfirmMessage{Key: w.GetCacheKey(), Hash: h}))
			reports++
			s.sent()
			if i >= at {
				verifrt.Assert((s.handed() == 1) == (reports >= t), "C01-share-confirmed-by-the-threshold")
			}
		}
	}
	verifrt.Reach("applied")
	verifrt.Assert(s.handed() == 1, "C01-share-confirmed-by-the-threshold")
}
