package keysign

import (
	"encoding/json"
	"errors"
	"time"

	tsslibcommon "github.com/binance-chain/tss-lib/common"
	"github.com/binance-chain/tss-lib/ecdsa/signing"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	maddr "github.com/multiformats/go-multiaddr"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

type c25Store struct{ peerstore.Peerstore }

func (c25Store) Peers() peer.IDSlice             { return nil }
func (c25Store) Addrs(peer.ID) []maddr.Multiaddr { return nil }

type c25State struct{ storage.LocalStateManager }

func (c25State) SaveAddressBook(map[peer.ID]addr.AddrList) error { return errors.New("disk full") }

// C25: a signer reports its task done when, and only when, it has the signatures of all messages.
// bound: committee of three, sessions of 1..2 messages (3 in the thorough tier) of which 0..all are signed before the time is out
// stub: signatures and SHA-256 are ideal; tss-lib's instances are played by the harness
func VerifH_C25_SignerReports() {
	conf := common.TssConfig{KeySignTimeout: time.Second}
	t, ids, peers, _ := common.VerifNode(conf, 3, 0)
	most := 2
	if verifrt.Thorough() {
		most = 3
	}
	num := 1 + verifrt.Choose("messages", most)
	signed := verifrt.Choose("signed", num+1)
	key := make([]byte, 32)
	key[31] = 1
	h := verifnet.NewHost(peers[0])
	h.Store = c25Store{}
	out := make(chan *messages.BroadcastMsgChan, 16)
	tk := NewTssKeySign(peers[0].String(), conf, out, make(chan struct{}), "a", secp256k1.PrivKey(key), p2p.VerifNewCommunication(h), c25State{}, num)
	tk.tssCommonStruct = t
	sent := common.VerifSent(t)
	shares := make(chan btss.Message, 4)
	shares <- common.VerifMessage(ids[0], nil, 1, true, []byte{7})
	end := make(chan *signing.SignatureData, 4)
	for i := 0; i < signed; i++ {
		end <- &signing.SignatureData{Signature: &tsslibcommon.ECSignature{M: []byte{byte(i)}}}
	}
	sigs, err := tk.processKeySign(num, make(chan struct{}), shares, end)
	reports := 0
	for _, m := range sent() {
		if m.WrappedMessage.MessageType != messages.TSSTaskDone {
			continue
		}
		reports++
		var n messages.TssTaskNotifier
		verifrt.Assert(json.Unmarshal(m.WrappedMessage.Payload, &n) == nil && n.TaskDone, "C25-report-says-done")
		verifrt.Assert(len(m.PeersID) == 2 && m.PeersID[0] != m.PeersID[1] && m.PeersID[0] != peers[0] && m.PeersID[1] != peers[0], "C25-report-sent-to-all-others")
		verifrt.Assert(m.WrappedMessage.MsgID == "a", "C25-report-for-this-session")
	}
	if signed == num {
		verifrt.Reach("done")
		verifrt.Assert(err == nil && len(sigs) == num, "C25-all-signatures-are-returned")
		verifrt.Assert(reports == 1, "C25-reports-done-once-when-done")
	} else {
		verifrt.Reach("timeout")
		verifrt.Assert(err != nil && len(sigs) == 0, "C25-no-signatures-without-all")
		verifrt.Assert(reports == 0, "C25-does-not-report-done-before-it-is")
	}
}
