package keysign

import (
	"github.com/btcsuite/btcd/btcec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/golang/protobuf/proto"
	"github.com/libp2p/go-libp2p-core/peer"

	tsslibcommon "github.com/binance-chain/tss-lib/common"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// verifPool is a pool key whose private key the harness holds.
type verifPool struct {
	priv *btcec.PrivateKey
	name string
}

func verifNewPool(seed byte) verifPool {
	conversion.SetupBech32Prefix()
	b := make([]byte, 32)
	b[31] = seed
	priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), b)
	name, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &secp256k1.PubKey{Key: pub.SerializeCompressed()})
	verifrt.Assert(err == nil, "setup")
	return verifPool{priv, name}
}

func (p verifPool) sign(msg []byte) *tsslibcommon.ECSignature {
	s, err := p.priv.Sign(msg)
	verifrt.Assert(err == nil, "setup")
	r, t := s.R.Bytes(), s.S.Bytes()
	return &tsslibcommon.ECSignature{Signature: append(append([]byte(nil), r...), t...), R: r, S: t, SignatureRecovery: []byte{1}, M: msg}
}

// verifSigStream is an inbound stream with a signature notification.
func verifSigStream(from peer.ID, id string, status messages.KeysignSignature_Status, sigs [][]byte) *verifnet.Stream {
	b, err := proto.Marshal(&messages.KeysignSignature{ID: id, KeysignStatus: status, Signatures: sigs})
	verifrt.Assert(err == nil, "setup")
	return verifFrameStream(from, b)
}

func verifFrameStream(from peer.ID, b []byte) *verifnet.Stream {
	w := &verifnet.Stream{}
	verifrt.Assert(p2p.WriteStreamWithBuffer(b, w) == nil, "setup")
	return &verifnet.Stream{Peer: from, In: w.Out}
}

func verifMarshalSig(s *tsslibcommon.ECSignature) []byte {
	b, err := proto.Marshal(s)
	verifrt.Assert(err == nil, "setup")
	return b
}
