package keygen

import (
	"errors"
	"time"

	bkg "github.com/binance-chain/tss-lib/ecdsa/keygen"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C08: a keygen session that times out blames exactly the members its last rounds wait for.
// bound: committee of four, first and last member as the local node; the instance produced the shares of round 1, of rounds 2 (unicast, broadcast) or of round 3 before the time was out; any subset of the other members heard from in the unicast round and in the last broadcast round
// outside: larger committees; shares accepted by the instance (C09); failures that were found before the time was out (C07)
// stub: signatures and SHA-256 are ideal; tss-lib's instance is played by the harness
// limit: 240s
func VerifH_C08_KeygenTimeout() {
	const n = 4
	me := (n - 1) * verifrt.Choose("me", 2)
	conf := common.TssConfig{KeyGenTimeout: time.Second}
	t, ids, peers, keys := common.VerifNode(conf, n, me)
	key := make([]byte, 32)
	key[31] = 1
	tk := NewTssKeyGen(peers[me].String(), conf, keys[me], make(chan *messages.BroadcastMsgChan, 16), make(chan struct{}), nil, "a", nil, secp256k1.PrivKey(key), nil)
	tk.tssCommonStruct = t
	out := make(chan btss.Message, 16)
	send := func(content btss.MessageContent, to []*btss.PartyID) {
		meta := btss.MessageRouting{From: ids[me], To: to, IsBroadcast: to == nil}
		out <- btss.NewMessage(meta, content, btss.NewMessageWrapper(meta, content))
	}
	name := messages.KEYGEN1
	switch verifrt.Choose("last round", 3) {
	case 0:
		send(&bkg.KGRound1Message{Commitment: []byte{1}}, nil)
	case 1:
		send(&bkg.KGRound2Message1{Share: []byte{1}}, []*btss.PartyID{ids[(me+1)%n]})
		send(&bkg.KGRound2Message2{DeCommitment: [][]byte{{1}}}, nil)
		name = messages.KEYGEN2b
	default:
		send(&bkg.KGRound3Message{PaillierProof: [][]byte{{1}}}, nil)
		name = messages.KEYGEN3
	}
	mgr := t.GetBlameMgr()
	heardU, heardB := map[int]bool{}, map[int]bool{}
	for i := 0; i < n; i++ {
		if i == me {
			continue
		}
		if verifrt.Bool("heard in the unicast round") {
			heardU[i] = true
			mgr.SetLastUnicastPeer(peers[i], messages.KEYGEN2aUnicast)
		}
		if verifrt.Bool("heard in the broadcast round") {
			heardB[i] = true
			w := &messages.WireMessage{Routing: &btss.MessageRouting{From: ids[i], IsBroadcast: true}, RoundInfo: name}
			mgr.GetRoundMgr().Set(w.GetCacheKey(), w)
		}
	}
	p, err := tk.processKeyGen(make(chan struct{}), out, nil, storage.KeygenLocalState{})
	verifrt.Reach("timeout")
	verifrt.Assert(p == nil && errors.Is(err, blame.ErrTssTimeOut), "C08-session-ends-with-the-timeout")
	b := mgr.GetBlame()
	for i := 0; i < n; i++ {
		want := false
		if i != me {
			want = len(heardU) > 0 && !heardU[i] || len(heardB) > 0 && !heardB[i]
		}
		k := 0
		for _, x := range b.BlameNodes {
			if x.Pubkey == keys[i] {
				k++
			}
		}
		if want {
			verifrt.Assert(k == 1, "C08-member-not-heard-from-is-blamed-once")
		} else {
			verifrt.Assert(k == 0, "C08-member-heard-from-is-not-blamed")
		}
	}
}
