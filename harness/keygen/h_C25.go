package keygen

import (
	"encoding/json"
	"errors"
	"math/big"
	"time"

	"github.com/binance-chain/tss-lib/crypto"
	bkg "github.com/binance-chain/tss-lib/ecdsa/keygen"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	maddr "github.com/multiformats/go-multiaddr"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

type c25Store struct{ peerstore.Peerstore }

func (c25Store) Peers() peer.IDSlice             { return nil }
func (c25Store) Addrs(peer.ID) []maddr.Multiaddr { return nil }

type c25State struct {
	storage.LocalStateManager
	saved *[]storage.KeygenLocalState
}

func (s c25State) SaveLocalState(st storage.KeygenLocalState) error {
	*s.saved = append(*s.saved, st)
	return nil
}
func (c25State) SaveAddressBook(map[peer.ID]addr.AddrList) error { return errors.New("disk full") }

// C25: a member reports its task done when, and only when, its key is generated.
// bound: committee of three; the key is there before the time is out or not
// stub: signatures and SHA-256 are ideal; tss-lib's instance is played by the harness
func VerifH_C25_MemberReports() {
	conf := common.TssConfig{KeyGenTimeout: time.Second}
	t, ids, peers, keys := common.VerifNode(conf, 3, 0)
	key := make([]byte, 32)
	key[31] = 1
	h := verifnet.NewHost(peers[0])
	h.Store = c25Store{}
	var saved []storage.KeygenLocalState
	tk := NewTssKeyGen(peers[0].String(), conf, keys[0], make(chan *messages.BroadcastMsgChan, 16), make(chan struct{}), nil, "a", c25State{saved: &saved}, secp256k1.PrivKey(key), p2p.VerifNewCommunication(h))
	tk.tssCommonStruct = t
	sent := common.VerifSent(t)
	out := make(chan btss.Message, 4)
	meta := btss.MessageRouting{From: ids[0], IsBroadcast: true}
	content := &bkg.KGRound1Message{Commitment: []byte{1}}
	out <- btss.NewMessage(meta, content, btss.NewMessageWrapper(meta, content))
	end := make(chan bkg.LocalPartySaveData, 4)
	done := verifrt.Choose("done", 2) == 1
	g := crypto.NewECPointNoCurveCheck(btss.EC(), btss.EC().Params().Gx, btss.EC().Params().Gy)
	if done {
		d := bkg.NewLocalPartySaveData(3)
		d.Xi = big.NewInt(5)
		d.ECDSAPub = g
		end <- d
	}
	p, err := tk.processKeyGen(make(chan struct{}), out, end, storage.KeygenLocalState{})
	reports := 0
	for _, m := range sent() {
		if m.WrappedMessage.MessageType != messages.TSSTaskDone {
			continue
		}
		reports++
		var n messages.TssTaskNotifier
		verifrt.Assert(json.Unmarshal(m.WrappedMessage.Payload, &n) == nil && n.TaskDone, "C25-report-says-done")
		verifrt.Assert(len(m.PeersID) == 2 && m.PeersID[0] != m.PeersID[1] && m.PeersID[0] != peers[0] && m.PeersID[1] != peers[0], "C25-report-sent-to-all-others")
		verifrt.Assert(m.WrappedMessage.MsgID == "a", "C25-report-for-this-session")
	}
	if done {
		verifrt.Reach("done")
		verifrt.Assert(err == nil && p.X().Cmp(g.X()) == 0 && len(saved) == 1, "C25-the-key-is-returned")
		verifrt.Assert(reports == 1, "C25-reports-done-once-when-done")
	} else {
		verifrt.Reach("timeout")
		verifrt.Assert(err != nil && p == nil && len(saved) == 0, "C25-no-key-without-the-end")
		verifrt.Assert(reports == 0, "C25-does-not-report-done-before-it-is")
	}
}
