package tss

import (
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C30: a started node has the identity of the key it was given.
// bound: three keys, no bootstrap peers
// stub: the libp2p host, the DHT and the announcements in it
func VerifH_C30_Server() {
	v := verifNewBoot(byte(1 + verifrt.Choose("key", 3)))
	s, err := v.start(nil, verifrt.TempDir())
	verifrt.Assert(err == nil && s != nil, "setup")
	verifrt.Assert(v.me == v.id, "C30-peer-identity-is-that-of-the-key")
	verifrt.Assert(s.GetLocalPeerID() == v.id.String(), "C30-peer-identity-is-that-of-the-key")
	verifrt.Assert(s.localNodePubKey == v.name, "C30-public-key-is-that-of-the-key")
	verifrt.Assert(s.privateKey.Equals(v.priv), "C30-key-is-the-one-given")
	s.Stop()
	verifrt.Reach("done")
}
