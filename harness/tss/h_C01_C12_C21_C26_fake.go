package tss

import (
	"bytes"
	"errors"
	"math/big"
	"sync"
	"time"

	tsslibcommon "github.com/binance-chain/tss-lib/common"
	bcrypto "github.com/binance-chain/tss-lib/crypto"
	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/binance-chain/tss-lib/ecdsa/signing"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/btcsuite/btcd/btcec"
	cosmos "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	protov1 "github.com/golang/protobuf/proto"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	maddr "github.com/multiformats/go-multiaddr"
	"github.com/rs/zerolog"
	"github.com/tendermint/tendermint/crypto/secp256k1"
	"google.golang.org/protobuf/proto"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/monitor"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// verifState stands in for the file storage.
type verifState struct {
	mu     sync.Mutex
	have   map[string]storage.KeygenLocalState
	saved  []storage.KeygenLocalState
	fail   bool
	booked int
}

func (s *verifState) SaveLocalState(st storage.KeygenLocalState) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail {
		return errors.New("disk full")
	}
	s.saved = append(s.saved, st)
	return nil
}

func (s *verifState) GetLocalState(pk string) (storage.KeygenLocalState, error) {
	if st, ok := s.have[pk]; ok {
		return st, nil
	}
	return storage.KeygenLocalState{}, errors.New("no such key")
}

func (s *verifState) SaveAddressBook(map[peer.ID]addr.AddrList) error {
	s.booked++
	if s.fail {
		return errors.New("disk full")
	}
	return nil
}
func (s *verifState) RetrieveP2PAddresses() (addr.AddrList, error) { return nil, errors.New("none") }

type verifStore struct{ peerstore.Peerstore }

func (verifStore) Peers() peer.IDSlice             { return nil }
func (verifStore) Addrs(peer.ID) []maddr.Multiaddr { return nil }

// verifNode is a TssServer with everything around it replaced: network, storage and the multi-party computation.
type verifNode struct {
	s     *TssServer
	h     *verifnet.Host
	st    *verifState
	keys  []string
	peers []peer.ID
	me    int
	pool  *btcec.PrivateKey
	name  string // the pool's public key

	privs  []secp256k1.PrivKey
	online []bool // who announces itself when asked to join

	// signing
	mu       sync.Mutex
	parties  []*verifParty // started ones
	made     int           // created
	expect   int           // the computation runs when so many have started
	startErr bool          // the first one fails to start
	finish   int           // so many of them finish
	order    func(n int) int
	sign     func(m *big.Int) *tsslibcommon.ECSignature
	newKey   bkeygen.LocalPartySaveData // what a key generation yields
	arrived  []*verifnet.Stream
	running  func(ps []*verifParty) // in the computation, before anything finishes
}

type verifParty struct {
	btss.Party
	n      *verifNode
	m      *big.Int
	params *btss.Parameters
	out    chan<- btss.Message
	end    chan<- *signing.SignatureData
	kend   chan<- bkeygen.LocalPartySaveData
	no     int // in order of creation
}

func (p *verifParty) PartyID() *btss.PartyID { return p.params.PartyID() }

func (p *verifParty) UpdateFromBytes([]byte, *btss.PartyID, bool) (bool, *btss.Error) {
	return true, nil
}

func (p *verifParty) Start() *btss.Error {
	n := p.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.startErr && p.no == 1 {
		return btss.NewError(errors.New("cannot start"), "start", 1, p.PartyID())
	}
	// as tss-lib does
	if p.end != nil && p.params.Threshold()+1 > len(p.params.Parties().IDs()) {
		return btss.NewError(errors.New("too few signers"), "start", 1, p.PartyID())
	}
	at := 0
	for at < len(n.parties) && n.parties[at].no < p.no {
		at++
	}
	n.parties = append(n.parties, nil)
	copy(n.parties[at+1:], n.parties[at:])
	n.parties[at] = p
	if len(n.parties) == n.expect {
		go n.compute(append([]*verifParty{}, n.parties...))
	}
	return nil
}

// compute ends the instances in any order.
func (n *verifNode) compute(rest []*verifParty) {
	if n.running != nil {
		n.running(rest)
	}
	for k := 0; k < n.finish && len(rest) > 0; k++ {
		i := 0
		if n.order != nil {
			i = n.order(len(rest))
		}
		p := rest[i]
		rest = append(append([]*verifParty{}, rest[:i]...), rest[i+1:]...)
		if p.end != nil {
			p.end <- &signing.SignatureData{Signature: n.sign(p.m)}
		} else {
			p.kend <- n.newKey
		}
	}
}

// verifTag is a signature of its own for every hash.
func verifTag(m *big.Int) *tsslibcommon.ECSignature {
	b := m.Bytes()
	return &tsslibcommon.ECSignature{R: append([]byte{'r'}, b...), S: append([]byte{'s'}, b...), SignatureRecovery: append([]byte{'v'}, b...), Signature: append([]byte{'g'}, b...), M: b}
}

func verifKeyPair(seed byte) (*btcec.PrivateKey, secp256k1.PrivKey, string) {
	b := make([]byte, 32)
	b[0], b[31] = 1, seed
	priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), b)
	name, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &cosmos.PubKey{Key: pub.SerializeCompressed()})
	verifrt.Assert(err == nil, "setup")
	return priv, secp256k1.PrivKey(b), name
}

// poolSign is a real signature of the pool key.
func (n *verifNode) poolSign(msg []byte) *tsslibcommon.ECSignature {
	s, err := n.pool.Sign(msg)
	verifrt.Assert(err == nil, "setup")
	r, t := s.R.Bytes(), s.S.Bytes()
	return &tsslibcommon.ECSignature{Signature: append(append([]byte(nil), r...), t...), R: r, S: t, SignatureRecovery: []byte{1}, M: msg}
}

// verifNewNode is node me of a committee of n, everybody online, with a pool key of that committee.
func verifNewNode(n, me int) *verifNode {
	conversion.SetupBech32Prefix()
	v := &verifNode{me: me, sign: verifTag}
	var priv secp256k1.PrivKey
	for i := 0; i < n; i++ {
		_, p, k := verifKeyPair(byte(i + 1))
		if i == me {
			priv = p
		}
		v.privs = append(v.privs, p)
		id, err := conversion.GetPeerIDFromPubKey(k)
		verifrt.Assert(err == nil, "setup")
		v.keys, v.peers, v.online = append(v.keys, k), append(v.peers, id), append(v.online, true)
	}
	v.pool, _, v.name = verifKeyPair(100)
	v.st = &verifState{have: map[string]storage.KeygenLocalState{
		v.name: {PubKey: v.name, ParticipantKeys: append([]string{}, v.keys...), LocalPartyKey: v.keys[me]},
	}}
	v.h = verifnet.NewHost(v.peers[me])
	v.h.Store = verifStore{}
	v.h.Open = v.open
	comm := p2p.VerifNewCommunication(v.h)
	v.s = &TssServer{
		conf:              common.TssConfig{PartyTimeout: 3 * time.Second, KeyGenTimeout: 10 * time.Second, KeySignTimeout: 10 * time.Second},
		logger:            zerolog.Nop(),
		p2pCommunication:  comm,
		localNodePubKey:   v.keys[me],
		preParams:         &bkeygen.LocalPreParams{},
		tssKeyGenLocker:   &sync.Mutex{},
		stopChan:          make(chan struct{}),
		partyCoordinator:  p2p.NewPartyCoordinator(v.h, 3*time.Second),
		stateManager:      v.st,
		signatureNotifier: keysign.NewSignatureNotifier(v.h),
		privateKey:        priv,
		tssMetrics:        monitor.NewMetric(),
	}
	signing.VerifNewLocalParty = func(m *big.Int, params *btss.Parameters, key bkeygen.LocalPartySaveData, out chan<- btss.Message, end chan<- *signing.SignatureData) btss.Party {
		v.mu.Lock()
		defer v.mu.Unlock()
		v.made++
		return &verifParty{n: v, m: m, params: params, out: out, end: end, no: v.made}
	}
	bkeygen.VerifNewLocalParty = func(params *btss.Parameters, out chan<- btss.Message, end chan<- bkeygen.LocalPartySaveData, pre ...bkeygen.LocalPreParams) btss.Party {
		v.mu.Lock()
		defer v.mu.Unlock()
		v.made++
		return &verifParty{n: v, params: params, out: out, kend: end, no: v.made}
	}
	return v
}

func (v *verifNode) index(p peer.ID) int {
	for i, x := range v.peers {
		if x == p {
			return i
		}
	}
	return -1
}

// open lets the peers answer what is sent to them.
func (v *verifNode) open(p peer.ID, proto protocol.ID) (*verifnet.Stream, error) {
	i := v.index(p)
	if i < 0 || !v.online[i] {
		return nil, errors.New("peer is down")
	}
	s := &verifnet.Stream{Peer: p, Proto: proto}
	if proto == "/p2p/join-party" {
		s.OnWritten = func(s *verifnet.Stream) {
			b, err := p2p.ReadStreamWithBuffer(&verifnet.Stream{In: s.Out})
			if err == nil { // the whole frame is there
				go v.arrive(p, "/p2p/join-party", b)
			}
		}
	}
	return s, nil
}

// arrive is an inbound stream with one frame.
func (v *verifNode) arrive(from peer.ID, pr protocol.ID, b []byte) *verifnet.Stream {
	w := &verifnet.Stream{}
	verifrt.Assert(p2p.WriteStreamWithBuffer(b, w) == nil, "setup")
	s := &verifnet.Stream{Peer: from, Proto: pr, In: w.Out}
	v.mu.Lock()
	v.arrived = append(v.arrived, s)
	v.mu.Unlock()
	var h network.StreamHandler = v.h.Handlers[pr]
	h(s)
	return s
}

func (v *verifNode) leaderSays(from peer.ID, id string, typ messages.JoinPartyLeaderComm_ResponseType, ids []peer.ID) {
	var str []string
	for _, p := range ids {
		str = append(str, p.String())
	}
	b, err := proto.Marshal(&messages.JoinPartyLeaderComm{ID: id, MsgType: "response", Type: typ, PeerIDs: str})
	verifrt.Assert(err == nil, "setup")
	v.arrive(from, "/p2p/join-party-leader", b)
}

// leaderAsked is a request to join this node's party.
func (v *verifNode) leaderAsked(from peer.ID, id string) {
	b, err := proto.Marshal(&messages.JoinPartyLeaderComm{ID: id, MsgType: "request"})
	verifrt.Assert(err == nil, "setup")
	v.arrive(from, "/p2p/join-party-leader", b)
}

// notify is a signature notification from a peer.
func (v *verifNode) notify(from peer.ID, id string, status messages.KeysignSignature_Status, sigs ...*tsslibcommon.ECSignature) {
	m := &messages.KeysignSignature{ID: id, KeysignStatus: status}
	for _, s := range sigs {
		b, err := protov1.Marshal(s)
		verifrt.Assert(err == nil, "setup")
		m.Signatures = append(m.Signatures, b)
	}
	b, err := protov1.Marshal(m)
	verifrt.Assert(err == nil, "setup")
	v.arrive(from, "/p2p/signatureNotifier", b)
}

// c26Raw are messages of 32 bytes.
func c26Raw(n int) [][]byte {
	var raw [][]byte
	for i := 0; i < n; i++ {
		raw = append(raw, bytes.Repeat([]byte{byte(0x90 + 0x30*i)}, 32))
	}
	return raw
}

func (v *verifNode) c26ID(req keysign.Request) string {
	id, err := v.s.requestToMsgId(c26Copy(req))
	verifrt.Assert(err == nil, "setup")
	return id
}

// c26Leader is the member elected for a request.
func (v *verifNode) c26Leader(id string, height int64) int {
	var ids []string
	for _, p := range v.peers {
		ids = append(ids, p.String())
	}
	l, err := p2p.LeaderNode(id, height, ids)
	verifrt.Assert(err == nil, "setup")
	for i, x := range ids {
		if x == l {
			return i
		}
	}
	verifrt.Assert(false, "setup")
	return -1
}

func (v *verifNode) c26NewKey() {
	x, y := v.pool.PublicKey.X, v.pool.PublicKey.Y
	pub, err := bcrypto.NewECPoint(btcec.S256(), x, y)
	verifrt.Assert(err == nil, "setup")
	v.newKey = bkeygen.LocalPartySaveData{ECDSAPub: pub}
	v.newKey.ShareID = big.NewInt(77)
	v.expect = 1
}

func c26Copy(r keysign.Request) keysign.Request {
	r.Messages = append([]string{}, r.Messages...)
	r.SignerPubKeys = append([]string{}, r.SignerPubKeys...)
	return r
}

// poolSign2 signs the hashes of the messages with the pool key.
func (v *verifNode) poolSign2(raw [][]byte) func(m *big.Int) *tsslibcommon.ECSignature {
	return func(m *big.Int) *tsslibcommon.ECSignature {
		for _, r := range raw {
			if h, _ := common.MsgToHashInt(r); h.Cmp(m) == 0 {
				return v.poolSign(r)
			}
		}
		return verifTag(m)
	}
}

func (v *verifNode) c26Instances(n int, raw [][]byte) {
	v.expect, v.finish = n, n
	v.sign = v.poolSign2(raw)
}
