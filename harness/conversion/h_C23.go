package conversion

import (
	"math/big"
	"sort"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// c23Pick returns n distinct keys of the pool in an arbitrary order, with their peer ids.
func c23Pick(n, pool int) ([]string, map[string]string) {
	return c23PickFrom(n, append(append([]string{}, verifnet.Keys...), verifnet.MoreKeys...)[:pool], append(append([]string{}, verifnet.PeerIDs[:4]...), verifnet.MorePeerIDs...)[:pool])
}

func c23PickFrom(n int, keys, peers []string) ([]string, map[string]string) {
	var out []string
	peerOf := map[string]string{}
	for i := 0; i < n; i++ {
		j := verifrt.Choose("key", len(keys))
		out = append(out, keys[j])
		peerOf[keys[j]] = peers[j]
		keys = append(append([]string{}, keys[:j]...), keys[j+1:]...)
		peers = append(append([]string{}, peers[:j]...), peers[j+1:]...)
	}
	return out, peerOf
}

func c23Equal(a, b *btss.PartyID) bool {
	return a.Id == b.Id && a.Moniker == b.Moniker && a.Index == b.Index && string(a.Key) == string(b.Key)
}

// C23: any order, any member.
// bound: every ordered choice of 1..3 (quick) / 1..4 (thorough) keys of a pool of 6 (quick) / 7 (thorough), every member as the local one
// outside: lists naming a key twice
func VerifH_C23_Parties() {
	nmax, pool := 3, 6
	if verifrt.Thorough() {
		nmax, pool = 4, 7
	}
	SetupBech32Prefix()
	n := 1 + verifrt.Choose("n", nmax)
	c23Parties(c23Pick(n, pool))
	verifrt.Reach("done")
}

// C23: keys that look alike.
// bound: every ordered choice of 2..3 (quick) / 2..4 (thorough) of six keys: a pair with a common beginning of 25 characters, a pair with a common end of 7 characters, a pair with the same X coordinate; every member as the local one
func VerifH_C23_Alike() {
	nmax := 2
	if verifrt.Thorough() {
		nmax = 3
	}
	SetupBech32Prefix()
	c23Parties(c23PickFrom(2+verifrt.Choose("n", nmax), append([]string{}, verifnet.AlikeKeys...), append([]string{}, verifnet.AlikePeerIDs...)))
	verifrt.Reach("done")
}

func c23Parties(keys []string, peerOf map[string]string) {
	verifrt.MapDeviations(1)
	c23Check(keys, keys[verifrt.Choose("local", len(keys))], peerOf)
}

func c23Check(keys []string, local string, peerOf map[string]string) {
	n := len(keys)
	listed := append([]string{}, keys...)
	sorted := append([]string{}, keys...)
	sort.Strings(sorted)

	parties, own, err := GetParties(append([]string{}, listed...), local)
	verifrt.Assert(err == nil, "C23-parties-derived")
	// what the member with the first key derives from the sorted list
	ref, refOwn, err := GetParties(append([]string{}, sorted...), sorted[0])
	verifrt.Assert(err == nil && len(ref) == len(parties), "C23-same-parties-for-everyone")
	verifrt.Assert(len(parties) == n, "C23-one-party-per-key")
	seen := map[string]bool{}
	ids := map[string]bool{}
	for i, p := range parties {
		verifrt.Assert(c23Equal(p, ref[i]), "C23-same-parties-for-everyone")
		verifrt.Assert(p.Index == i, "C23-ordered")
		if i > 0 {
			verifrt.Assert(new(big.Int).SetBytes(parties[i-1].Key).Cmp(new(big.Int).SetBytes(p.Key)) < 0, "C23-ordered")
		}
		pk, err := PartyIDtoPubKey(p)
		verifrt.Assert(err == nil && peerOf[pk] != "" && !seen[pk], "C23-one-party-per-key")
		seen[pk] = true
		verifrt.Assert(p.Id != "" && !ids[p.Id], "C23-distinct-identifiers")
		ids[p.Id] = true
		pid, err := GetPeerIDFromPartyID(p)
		verifrt.Assert(err == nil && pid.String() == peerOf[pk], "C23-party-to-peer")
		pid, err = GetPeerIDFromPubKey(pk)
		verifrt.Assert(err == nil && pid.String() == peerOf[pk], "C23-key-to-peer")
		back, err := GetPubKeyFromPeerID(peerOf[pk])
		verifrt.Assert(err == nil && back == pk, "C23-peer-to-key")
	}
	pk, err := PartyIDtoPubKey(own)
	verifrt.Assert(err == nil && pk == local, "C23-own-party")
	mine := 0
	for _, p := range parties {
		if p == own {
			mine++
		}
	}
	verifrt.Assert(mine == 1, "C23-own-party")
	pk, err = PartyIDtoPubKey(refOwn)
	verifrt.Assert(err == nil && pk == sorted[0], "C23-own-party")

	pm := SetupPartyIDMap(parties)
	verifrt.Assert(len(pm) == n, "C23-map-one-to-one")
	to := map[string]peer.ID{}
	verifrt.Assert(SetupIDMaps(pm, to) == nil && len(to) == n, "C23-map-one-to-one")
	for _, p := range parties {
		verifrt.Assert(pm[p.Id] == p, "C23-map-one-to-one")
		pk, _ := PartyIDtoPubKey(p)
		verifrt.Assert(to[p.Id].String() == peerOf[pk], "C23-map-party-to-peer")
		acc, err := AccPubKeysFromPartyIDs([]string{p.Id}, pm)
		verifrt.Assert(err == nil && len(acc) == 1 && acc[0] == pk, "C23-map-party-to-key")
	}
	// the peers to talk to: everyone but this node
	others := GetPeersID(to, peerOf[local])
	verifrt.Assert(len(others) == n-1, "C23-everyone-but-this-node")
	for _, k := range sorted {
		c := 0
		for _, o := range others {
			if o.String() == peerOf[k] {
				c++
			}
		}
		verifrt.Assert((c == 1) == (k != local) && c <= 1, "C23-everyone-but-this-node")
	}
	all, err := GetPeerIDsFromPubKeys(listed)
	verifrt.Assert(err == nil && len(all) == n, "C23-keys-to-peers")
	var names []string
	for i := range all {
		verifrt.Assert(all[i].String() == peerOf[listed[i]], "C23-keys-to-peers")
		names = append(names, all[i].String())
	}
	all, err = GetPeerIDs(listed)
	verifrt.Assert(err == nil && len(all) == n, "C23-keys-to-peers")
	for i := range all {
		verifrt.Assert(all[i].String() == peerOf[listed[i]], "C23-keys-to-peers")
	}
	back, err := GetPubKeysFromPeerIDs(names)
	verifrt.Assert(err == nil && len(back) == n, "C23-peers-to-keys")
	for i := range back {
		verifrt.Assert(back[i] == listed[i], "C23-peers-to-keys")
	}
}

// C23: keys that are not listed or not keys.
// bound: 0..3 keys of a pool of 4 (quick) / 6 (thorough), one of them possibly replaced by a malformed one (no prefix, wrong prefix, damaged checksum, cut short, arbitrary 2-byte string), any own key: listed, unlisted, empty
func VerifH_C23_Errors() {
	pool := 4
	if verifrt.Thorough() {
		pool = 6
	}
	SetupBech32Prefix()
	n := verifrt.Choose("n", 4)
	keys, _ := c23Pick(n, pool)
	own := []string{verifnet.MoreKeys[2], "", "12"}[verifrt.Choose("own", 3)]
	bad := n > 0 && verifrt.Choose("bad", 2) == 1
	if bad {
		i := verifrt.Choose("badpos", n)
		own = keys[verifrt.Choose("ownlisted", n)]
		switch verifrt.Choose("kind", 5) {
		case 0:
			keys[i] = ""
		case 1:
			keys[i] = "bnbp1addwnpepqfjcw5l4ay5t00c32mmlky7qrppepxzdlkcwfs2fd5u73qrwna0vza"
		case 2:
			b := []byte(keys[i])
			b[20] ^= 1
			keys[i] = string(b)
		case 3:
			keys[i] = keys[i][:len(keys[i])-1]
		default:
			keys[i] = "thorpub1" + string(rune('a'+verifrt.Choose("letter", 3)))
		}
	}
	parties, local, err := GetParties(append([]string{}, keys...), own)
	verifrt.Assert(err != nil && parties == nil && local == nil, "C23-error-for-unlisted-or-malformed-key")
	ids, err := GetPeerIDsFromPubKeys(keys)
	verifrt.Assert((err != nil) == bad, "C23-malformed-key-is-an-error")
	if err == nil {
		verifrt.Assert(len(ids) == n, "C23-keys-to-peers")
		verifrt.Reach("unlisted")
	} else {
		verifrt.Reach("malformed")
	}
	_, err = GetPeerIDs(keys)
	verifrt.Assert((err != nil) == bad, "C23-malformed-key-is-an-error")
}

// C23: parties and peers that are not valid.
// bound: any 1-byte party identifier, 5 party keys of a wrong length, 4 malformed peer ids
func VerifH_C23_Malformed() {
	SetupBech32Prefix()
	parties, _, err := GetParties(append([]string{}, verifnet.Keys...), verifnet.Keys[0])
	verifrt.Assert(err == nil, "setup")
	pm := SetupPartyIDMap(parties)
	id := verifrt.Str("id", 1)
	acc, err := AccPubKeysFromPartyIDs([]string{"0", id}, pm)
	if id >= "0" && id <= "3" {
		verifrt.Reach("known")
		verifrt.Assert(err == nil && len(acc) == 2, "C23-map-party-to-key")
	} else {
		verifrt.Reach("unknown")
		verifrt.Assert(err != nil, "C23-unknown-party-is-an-error")
	}
	_, err = PartyIDtoPubKey(nil)
	verifrt.Assert(err != nil, "C23-invalid-party-is-an-error")
	_, err = GetPeerIDFromPartyID(nil)
	verifrt.Assert(err != nil, "C23-invalid-party-is-an-error")
	key := [][]byte{{}, {2}, {2, 3, 4}, parties[0].Key[:32], append(append([]byte{}, parties[0].Key...), 1)}[verifrt.Choose("partykey", 5)]
	p := &btss.PartyID{MessageWrapper_PartyID: &btss.MessageWrapper_PartyID{Id: "0", Key: key}, Index: 0}
	_, err = GetPeerIDFromPartyID(p)
	verifrt.Assert(err != nil, "C23-invalid-party-is-an-error")
	bad := map[string]*btss.PartyID{"0": p}
	verifrt.Assert(SetupIDMaps(bad, map[string]peer.ID{}) != nil, "C23-invalid-party-is-an-error")
	q := &btss.PartyID{MessageWrapper_PartyID: &btss.MessageWrapper_PartyID{Id: "0", Key: parties[0].Key}, Index: -1 - verifrt.Choose("index", 2)}
	_, err = PartyIDtoPubKey(q)
	verifrt.Assert(err != nil, "C23-invalid-party-is-an-error")
	_, err = GetPeerIDFromPartyID(q)
	verifrt.Assert(err != nil, "C23-invalid-party-is-an-error")
	_, err = GetPubKeyFromPeerID([]string{"", "x", "16Uiu2", "QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N"}[verifrt.Choose("peer", 4)])
	verifrt.Assert(err != nil, "C23-malformed-peer-is-an-error")
}

// C23: large committees.
// bound: committees of 5, 9, 10, 11, 12 and 14 real keys, rotated by any number of places or reversed; the first, the last or a middle one as the local one
func VerifH_C23_Large() {
	SetupBech32Prefix()
	n := []int{5, 9, 10, 11, 12, 14}[verifrt.Choose("n", 6)]
	keys := append([]string{}, verifnet.ManyKeys[:n]...)
	peerOf := map[string]string{}
	for i := range verifnet.ManyKeys {
		peerOf[verifnet.ManyKeys[i]] = verifnet.ManyPeerIDs[i]
	}
	if r := verifrt.Choose("rotated by", n); r > 0 {
		keys = append(append([]string{}, keys[r:]...), keys[:r]...)
	} else {
		for i := range keys {
			keys[i] = verifnet.ManyKeys[n-1-i]
		}
	}
	c23Check(keys, keys[[]int{0, n / 2, n - 1}[verifrt.Choose("local", 3)]], peerOf)
	verifrt.Reach("done")
}
