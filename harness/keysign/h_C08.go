package keysign

import (
	"errors"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C08: a keysign session that times out blames exactly the members its last round waits for.
// bound: committee of four, first and last member as the local node; the instance produced one or two shares of any of the eight rounds (1a and 2 are unicast), in protocol order, before the time was out; any subset of the other members heard from in each round, the round's messages in two orders of arrival
// outside: larger committees; shares accepted by the instance (C09); failures that were found before the time was out (C07)
// stub: signatures and SHA-256 are ideal; tss-lib's instance is played by the harness
// limit: 240s
func VerifH_C08_SignTimeout() {
	const n = 4
	me := (n - 1) * verifrt.Choose("me", 2)
	conf := common.TssConfig{KeySignTimeout: time.Second}
	t, ids, peers, keys := common.VerifNode(conf, n, me)
	key := make([]byte, 32)
	key[31] = 1
	tk := NewTssKeySign(peers[me].String(), conf, make(chan *messages.BroadcastMsgChan, 16), make(chan struct{}), "a", secp256k1.PrivKey(key), nil, nil, 1)
	tk.tssCommonStruct = t
	rounds := []struct {
		name  string
		bcast bool
	}{{messages.KEYSIGN1aUnicast, false}, {messages.KEYSIGN1b, true}, {messages.KEYSIGN2Unicast, false}, {messages.KEYSIGN3, true}, {messages.KEYSIGN4, true}, {messages.KEYSIGN5, true}, {messages.KEYSIGN6, true}, {messages.KEYSIGN7, true}}
	last := verifrt.Choose("last round", 8)
	out := make(chan btss.Message, 16)
	first := last
	if last > 0 && verifrt.Choose("share of the round before", 2) == 1 {
		first = last - 1
	}
	for r := first; r <= last; r++ {
		var to []*btss.PartyID
		if !rounds[r].bcast {
			to = []*btss.PartyID{ids[(me+1)%n]}
		}
		out <- common.VerifMessage(ids[me], to, r, rounds[r].bcast, []byte{7})
	}
	// the rounds that decide: the last one, and the latest unicast round before a broadcast one
	uni := last
	if last == 1 {
		uni = 0
	} else if last > 2 {
		uni = 2
	}
	mgr := t.GetBlameMgr()
	heardU, heardB := map[int]bool{}, map[int]bool{}
	for k := 0; k < n; k++ {
		i := k
		if i == me {
			continue
		}
		if verifrt.Bool("heard in the unicast round") {
			heardU[i] = true
			mgr.SetLastUnicastPeer(peers[i], rounds[uni].name)
		}
		if rounds[last].bcast && verifrt.Bool("heard in the broadcast round") {
			heardB[i] = true
			w := &messages.WireMessage{Routing: &btss.MessageRouting{From: ids[i], IsBroadcast: true}, RoundInfo: rounds[last].name}
			mgr.GetRoundMgr().Set(w.GetCacheKey(), w)
		}
	}
	sigs, err := tk.processKeySign(1, make(chan struct{}), out, nil)
	verifrt.Reach("timeout")
	verifrt.Assert(sigs == nil && errors.Is(err, blame.ErrTssTimeOut), "C08-session-ends-with-the-timeout")
	b := mgr.GetBlame()
	for i := 0; i < n; i++ {
		want := false
		if i != me {
			want = len(heardU) > 0 && !heardU[i] || len(heardB) > 0 && !heardB[i]
		}
		k := 0
		for _, x := range b.BlameNodes {
			if x.Pubkey == keys[i] {
				k++
			}
		}
		if want {
			verifrt.Assert(k == 1, "C08-member-not-heard-from-is-blamed-once")
		} else {
			verifrt.Assert(k == 0, "C08-member-heard-from-is-not-blamed")
		}
	}
}
