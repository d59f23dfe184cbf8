package common

import (
	"encoding/json"
	"sync"

	"github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/binance-chain/tss-lib/ecdsa/signing"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/btcsuite/btcd/btcec"
	cosmos "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// verifHand is one share handed to an instance.
type verifHand struct {
	wire  []byte
	from  *btss.PartyID
	bcast bool
}

// verifInst stands in for one signing or key generation instance of tss-lib.
type verifInst struct {
	btss.Party
	id   *btss.PartyID
	mu   sync.Mutex
	got  []verifHand // every share handed over
	fail func(h verifHand) *btss.Error
}

func (p *verifInst) PartyID() *btss.PartyID { return p.id }

func (p *verifInst) UpdateFromBytes(b []byte, from *btss.PartyID, bcast bool) (bool, *btss.Error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	h := verifHand{b, from, bcast}
	p.got = append(p.got, h)
	if p.fail != nil {
		if err := p.fail(h); err != nil {
			return false, err
		}
	}
	return true, nil
}

// verifSession is a keysign session of a committee of n whose keys the harness holds. Members are numbered in party order.
type verifSession struct {
	t     *TssCommon
	out   chan *messages.BroadcastMsgChan
	n     int
	priv  []secp256k1.PrivKey
	ids   []*btss.PartyID
	keys  []string
	peers []peer.ID
	inst  map[string]*verifInst
	other peer.ID // not a member
}

const verifMsgID = "a"

func verifKey(seed byte) (secp256k1.PrivKey, string) {
	b := make([]byte, 32)
	b[0], b[31] = 1, seed
	_, pub := btcec.PrivKeyFromBytes(btcec.S256(), b)
	name, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &cosmos.PubKey{Key: pub.SerializeCompressed()})
	verifrt.Assert(err == nil, "setup")
	return secp256k1.PrivKey(b), name
}

// verifNewSession is node me of a committee of n with the given instances.
func verifNewSession(n, me int, instances ...string) *verifSession {
	return verifNewSessionID(verifMsgID, n, me, instances...)
}

func verifNewSessionID(id string, n, me int, instances ...string) *verifSession {
	conversion.SetupBech32Prefix()
	s := &verifSession{n: n, inst: map[string]*verifInst{}, out: make(chan *messages.BroadcastMsgChan, 64)}
	privOf := map[string]secp256k1.PrivKey{}
	var keys []string
	for i := 0; i < n; i++ {
		p, k := verifKey(byte(i + 1))
		privOf[k] = p
		keys = append(keys, k)
	}
	parties, _, err := conversion.GetParties(keys, keys[0])
	verifrt.Assert(err == nil && len(parties) == n, "setup")
	for i, p := range parties {
		k, err := conversion.PartyIDtoPubKey(p)
		verifrt.Assert(err == nil, "setup")
		pid, err := conversion.GetPeerIDFromPubKey(k)
		verifrt.Assert(err == nil && p.Index == i, "setup")
		s.keys, s.ids, s.peers, s.priv = append(s.keys, k), append(s.ids, p), append(s.peers, pid), append(s.priv, privOf[k])
	}
	_, ok := verifKey(byte(n + 1))
	s.other, err = conversion.GetPeerIDFromPubKey(ok)
	verifrt.Assert(err == nil, "setup")
	s.t = NewTssCommon(s.peers[me].String(), s.out, TssConfig{}, id, s.priv[me], len(instances))
	pm := conversion.SetupPartyIDMap(parties)
	verifrt.Assert(conversion.SetupIDMaps(pm, s.t.PartyIDtoP2PID) == nil, "setup")
	verifrt.Assert(conversion.SetupIDMaps(pm, s.t.GetBlameMgr().PartyIDtoP2PID) == nil, "setup")
	m := &sync.Map{}
	for _, i := range instances {
		s.inst[i] = &verifInst{id: parties[me]}
		m.Store(i, s.inst[i])
	}
	s.t.SetPartyInfo(&PartyInfo{PartyMap: m, PartyIDMap: pm})
	s.t.GetBlameMgr().SetPartyInfo(m, pm)
	s.t.P2PPeersLock.Lock()
	s.t.P2PPeers = conversion.GetPeersID(s.t.PartyIDtoP2PID, s.t.GetLocalPeerID())
	s.t.P2PPeersLock.Unlock()
	return s
}

// verifRounds are the rounds: of a keysign (0 to 7), of a key generation (8 to 11), and the last two of a keysign that is aborted.
var verifRounds = []blame.RoundInfo{
	{Index: 0, RoundMsg: messages.KEYSIGN1aUnicast},
	{Index: 1, RoundMsg: messages.KEYSIGN1b},
	{Index: 2, RoundMsg: messages.KEYSIGN2Unicast},
	{Index: 3, RoundMsg: messages.KEYSIGN3},
	{Index: 4, RoundMsg: messages.KEYSIGN4},
	{Index: 5, RoundMsg: messages.KEYSIGN5},
	{Index: 6, RoundMsg: messages.KEYSIGN6},
	{Index: 7, RoundMsg: messages.KEYSIGN7},
	{Index: 0, RoundMsg: messages.KEYGEN1},
	{Index: 1, RoundMsg: messages.KEYGEN2aUnicast},
	{Index: 2, RoundMsg: messages.KEYGEN2b},
	{Index: 3, RoundMsg: messages.KEYGEN3},
	{Index: 6, RoundMsg: messages.KEYSIGN6},
	{Index: 7, RoundMsg: messages.KEYSIGN7},
}

// verifWire is the wire form of a share of verifRounds[round] with the given content.
func verifWire(from *btss.PartyID, round int, bcast bool, c []byte) []byte {
	var content btss.MessageContent
	switch round {
	case 0:
		content = &signing.SignRound1Message1{C: c}
	case 1:
		content = &signing.SignRound1Message2{Commitment: c}
	case 2:
		content = &signing.SignRound2Message{C1: c}
	case 3:
		content = &signing.SignRound3Message{DeltaI: c}
	case 4:
		content = &signing.SignRound4Message{DeCommitment: [][]byte{c}}
	case 5:
		content = &signing.SignRound5Message{ProofPdlWSlack: [][]byte{c}}
	case 6:
		content = &signing.SignRound6Message{Content: &signing.SignRound6Message_Success{Success: &signing.SignRound6Message_SuccessData{StProofT: c}}}
	case 7:
		content = &signing.SignRound7Message{Content: &signing.SignRound7Message_SI{SI: c}}
	case 8:
		content = &keygen.KGRound1Message{Commitment: c}
	case 9:
		content = &keygen.KGRound2Message1{Share: c}
	case 10:
		content = &keygen.KGRound2Message2{DeCommitment: [][]byte{c}}
	case 11:
		content = &keygen.KGRound3Message{PaillierProof: [][]byte{c}}
	case 12:
		content = &signing.SignRound6Message{Content: &signing.SignRound6Message_Abort{Abort: &signing.SignRound6Message_AbortData{KI: c}}}
	default:
		content = &signing.SignRound7Message{Content: &signing.SignRound7Message_Abort{Abort: &signing.SignRound7Message_AbortData{KI: c}}}
	}
	meta := btss.MessageRouting{From: from, IsBroadcast: bcast}
	b, _, err := btss.NewMessage(meta, content, btss.NewMessageWrapper(meta, content)).WireBytes()
	verifrt.Assert(err == nil, "setup")
	return b
}

func verifJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	verifrt.Assert(err == nil, "setup")
	return b
}

// verifSign signs a batch for a session.
func verifSign(key secp256k1.PrivKey, msg []byte, session string) []byte {
	sig, err := key.Sign(append(append([]byte(nil), msg...), session...))
	verifrt.Assert(err == nil, "setup")
	return sig
}

// share is a correctly signed batch of member from.
func (s *verifSession) share(from, round int, bcast bool, entries ...BulkWireMsg) *messages.WireMessage {
	buf := verifJSON(entries)
	r := &btss.MessageRouting{From: s.ids[from], IsBroadcast: bcast}
	return &messages.WireMessage{Routing: r, RoundInfo: verifRounds[round].RoundMsg, Message: buf, Sig: verifSign(s.priv[from], buf, verifMsgID)}
}

// entry is one share of a batch.
func (s *verifSession) entry(from, round int, bcast bool, inst string, c []byte) BulkWireMsg {
	return NewBulkWireMsg(verifWire(s.ids[from], round, bcast, c), inst, &btss.MessageRouting{From: s.ids[from], IsBroadcast: bcast})
}

func (s *verifSession) deliver(typ messages.THORChainTSSMessageType, from peer.ID, payload []byte) error {
	return s.t.ProcessOneMessage(&messages.WrappedMessage{MessageType: typ, MsgID: verifMsgID, Payload: payload}, from.String())
}

// handed counts the shares handed to all instances.
func (s *verifSession) handed() int {
	n := 0
	for _, i := range s.inst {
		n += len(i.got)
	}
	return n
}

// sent empties the queue of outgoing messages.
func (s *verifSession) sent() []*messages.BroadcastMsgChan {
	var r []*messages.BroadcastMsgChan
	for len(s.out) > 0 {
		r = append(r, <-s.out)
	}
	return r
}

func (s *verifSession) accepted(round int, inst string, id int) int {
	k := 0
	for _, x := range blame.VerifAccepted(s.t.GetBlameMgr())[blame.RoundInfo{Index: verifRounds[round].Index, RoundMsg: verifRounds[round].RoundMsg, MsgIdentifier: inst}] {
		if x == s.ids[id].Id {
			k++
		}
	}
	return k
}

// VerifMessage is a share of verifRounds[round] as the protocol library produces it.
func VerifMessage(from *btss.PartyID, to []*btss.PartyID, round int, bcast bool, c []byte) btss.Message {
	b := verifWire(from, round, bcast, c)
	m, err := btss.ParseWireMessage(b, from, bcast)
	verifrt.Assert(err == nil, "setup")
	meta := btss.MessageRouting{From: from, To: to, IsBroadcast: bcast}
	return btss.NewMessage(meta, m.Content(), btss.NewMessageWrapper(meta, m.Content()))
}

// VerifShare is a share of a session as it arrives from the network.
func VerifShare(key secp256k1.PrivKey, from *btss.PartyID, session, inst string, round int, bcast bool, c []byte) ([]byte, *messages.WireMessage) {
	buf := verifJSON([]BulkWireMsg{NewBulkWireMsg(verifWire(from, round, bcast, c), inst, &btss.MessageRouting{From: from, IsBroadcast: bcast})})
	w := &messages.WireMessage{Routing: &btss.MessageRouting{From: from, IsBroadcast: bcast}, RoundInfo: verifRounds[round].RoundMsg, Message: buf, Sig: verifSign(key, buf, session)}
	return verifJSON(&messages.WrappedMessage{MessageType: messages.TSSKeySignMsg, MsgID: session, Payload: verifJSON(w)}), w
}

// VerifConfirm is a report of the hash of a share.
func VerifConfirm(peerID, session string, w *messages.WireMessage) []byte {
	h, err := conversion.BytesToHashString(w.Message)
	verifrt.Assert(err == nil, "setup")
	return verifJSON(&messages.WrappedMessage{MessageType: messages.TSSKeySignVerMsg, MsgID: session, Payload: verifJSON(&messages.BroadcastConfirmMessage{P2PID: peerID, Key: w.GetCacheKey(), Hash: h})})
}

// verifProtocol is what belongs to a kind of session: the types of its messages and its rounds, in order.
func verifProtocol(sign bool) (share, confirm messages.THORChainTSSMessageType, rounds []int) {
	if sign {
		return messages.TSSKeySignMsg, messages.TSSKeySignVerMsg, []int{0, 1, 2, 3, 4, 5, 6, 7}
	}
	return messages.TSSKeyGenMsg, messages.TSSKeyGenVerMsg, []int{8, 9, 10, 11}
}

func verifUnicast(round int) bool { return round == 0 || round == 2 || round == 9 }

// confirm lets every other member report the hash of a share.
func (s *verifSession) confirm(typ messages.THORChainTSSMessageType, owner int, w *messages.WireMessage) {
	h, err := conversion.BytesToHashString(w.Message)
	verifrt.Assert(err == nil, "setup")
	for m := range s.ids {
		if m != owner && s.peers[m].String() != s.t.GetLocalPeerID() {
			s.deliver(typ, s.peers[m], verifJSON(&messages.BroadcastConfirmMessage{P2PID: s.peers[m].String(), Key: w.GetCacheKey(), Hash: h}))
		}
	}
}

func c04Threshold(n int) int { return (2*n+2)/3 - 1 }

var c05Insts = []string{"1:0", "2:1"}

func c11Same(a, b []peer.ID) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		n := 0
		for _, y := range b {
			if x == y {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

// VerifNode is node me of a committee of n in the session of one message, with what it is about to send.
func VerifNode(conf TssConfig, n, me int) (t *TssCommon, ids []*btss.PartyID, peers []peer.ID, keys []string) {
	s := verifNewSession(n, me, "m")
	s.t.conf = conf
	return s.t, s.ids, s.peers, s.keys
}

// VerifSent takes what a node has sent so far.
func VerifSent(t *TssCommon) func() []*messages.BroadcastMsgChan {
	s := &verifSession{out: t.broadcastChannel}
	return s.sent
}
