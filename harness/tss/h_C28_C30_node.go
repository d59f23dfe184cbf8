package tss

import (
	"context"
	"errors"
	"math/big"
	"sync"
	"time"

	"github.com/binance-chain/tss-lib/crypto/paillier"
	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/btcsuite/btcd/btcec"
	cosmos "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-core/protocol"
	discovery "github.com/libp2p/go-libp2p-discovery"
	dht "github.com/libp2p/go-libp2p-kad-dht"
	maddr "github.com/multiformats/go-multiaddr"
	tcrypto "github.com/tendermint/tendermint/crypto"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

type bootStore struct{ peerstore.Peerstore }

func (bootStore) Peers() peer.IDSlice                  { return nil }
func (bootStore) Addrs(peer.ID) []maddr.Multiaddr      { return nil }
func (bootStore) RecordLatency(peer.ID, time.Duration) {}

// verifBoot starts whole nodes: the libp2p host, the DHT and the announcements are stand-ins.
type verifBoot struct {
	mu     sync.Mutex
	h      *verifnet.Host
	me     peer.ID // the identity the host was made with
	listen []maddr.Multiaddr
	silent map[peer.ID]bool // no answer to a ping
	priv   tcrypto.PrivKey
	name   string
	id     peer.ID
}

func verifNewBoot(seed byte) *verifBoot {
	conversion.SetupBech32Prefix()
	b := make([]byte, 32)
	b[0], b[31] = 1, seed
	_, pub := btcec.PrivKeyFromBytes(btcec.S256(), b)
	name, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &cosmos.PubKey{Key: pub.SerializeCompressed()})
	verifrt.Assert(err == nil, "setup")
	id, err := conversion.GetPeerIDFromPubKey(name)
	verifrt.Assert(err == nil, "setup")
	v := &verifBoot{priv: secp256k1.PrivKey(b), name: name, id: id, silent: map[peer.ID]bool{}}
	v.h = verifnet.NewHost(id)
	v.h.Store, v.h.Hang, v.h.Refuse = bootStore{}, map[peer.ID]bool{}, map[peer.ID]bool{}
	v.h.Open = func(p peer.ID, proto protocol.ID) (*verifnet.Stream, error) {
		s := &verifnet.Stream{Peer: p, Proto: proto}
		pings := 0
		s.WriteFn = func(b []byte) (int, error) {
			pings++
			if pings > 1 || v.silent[p] {
				return 0, errors.New("reset")
			}
			s.In = append([]byte(nil), b...)
			return len(b), nil
		}
		return s, nil
	}
	libp2p.VerifNew = func(ctx context.Context, opts ...libp2p.Option) (host.Host, error) {
		var cfg libp2p.Config
		for _, o := range opts {
			if err := o(&cfg); err != nil {
				return nil, err
			}
		}
		id, err := peer.IDFromPublicKey(cfg.PeerKey.GetPublic())
		if err != nil {
			return nil, err
		}
		v.me, v.listen = id, cfg.ListenAddrs
		v.h.Me = id
		return v.h, nil
	}
	dht.VerifNew = func(context.Context, host.Host) error { return nil }
	discovery.VerifAdvertise = func(string) {}
	return v
}

func (v *verifBoot) start(boot []maddr.Multiaddr, folder string) (*TssServer, error) {
	pre := &bkeygen.LocalPreParams{PaillierSK: &paillier.PrivateKey{}, NTildei: big.NewInt(1), H1i: big.NewInt(2), H2i: big.NewInt(3)}
	conf := common.TssConfig{PartyTimeout: time.Second, KeyGenTimeout: time.Second, KeySignTimeout: time.Second, PreParamTimeout: time.Second}
	return NewTss(boot, 6668, v.priv, "verif", folder, conf, pre, "")
}
