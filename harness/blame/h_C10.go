package blame

import (
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C10: the nodes blamed for not showing up.
// bound: 0..3 (quick) / 0..4 (thorough) listed keys in any order, repetitions included, of a pool of 3 members and one malformed key; 0..2 (quick) / 0..3 (thorough) online peers of those members or a stranger, or an arbitrary 3-byte peer id
func VerifH_C10_NodeSync() {
	kmax, omax := 4, 3
	if verifrt.Thorough() {
		kmax, omax = 5, 4
	}
	conversion.SetupBech32Prefix()
	m := NewBlameManager()
	var keys []string
	var who []int
	bad := false
	for i, n := 0, verifrt.Choose("keys", kmax); i < n; i++ {
		w := verifrt.Choose("key", 4)
		if w == 3 {
			bad = true
			keys = append(keys, "thorpub1notakey")
		} else {
			keys = append(keys, verifnet.Keys[w])
		}
		who = append(who, w)
	}
	var online []peer.ID
	var on [3]bool
	for i, n := 0, verifrt.Choose("online", omax); i < n; i++ {
		w := verifrt.Choose("peer", 5)
		switch {
		case w < 3:
			on[w] = true
			online = append(online, verifnet.Peer(w))
		case w == 3:
			online = append(online, verifnet.Peer(4))
		default:
			online = append(online, peer.ID(verifrt.Str("peerid", 3)))
		}
	}
	given := append([]string{}, keys...)
	b, err := m.NodeSyncBlame(keys, online)
	if bad {
		verifrt.Reach("malformed")
		verifrt.Assert(err != nil, "C10-malformed-key-is-an-error")
		return
	}
	verifrt.Reach("computed")
	verifrt.Assert(err == nil, "C10-blame-computed")
	verifrt.Assert(b.FailReason == TssSyncFail, "C10-reason")
	j := 0
	for i, w := range who {
		verifrt.Assert(keys[i] == given[i], "C10-keys-not-altered")
		if on[w] {
			continue
		}
		verifrt.Assert(j < len(b.BlameNodes), "C10-exactly-the-absent-members-in-order")
		if j < len(b.BlameNodes) {
			verifrt.Assert(b.BlameNodes[j].Pubkey == given[i], "C10-exactly-the-absent-members-in-order")
		}
		j++
	}
	verifrt.Assert(len(b.BlameNodes) == j, "C10-exactly-the-absent-members-in-order")
}

// C10: near-miss peer ids are not mistaken for a member.
// bound: one member; an online peer id that equals the member's except for one arbitrary byte at any position
func VerifH_C10_NearMiss() {
	conversion.SetupBech32Prefix()
	m := NewBlameManager()
	p := []byte(verifnet.Peer(0))
	i := verifrt.Choose("position", len(p))
	old := p[i]
	p[i] = verifrt.Byte("byte")
	b, err := m.NodeSyncBlame([]string{verifnet.Keys[0]}, []peer.ID{peer.ID(p)})
	verifrt.Assert(err == nil, "C10-blame-computed")
	if p[i] == old {
		verifrt.Reach("same")
		verifrt.Assert(len(b.BlameNodes) == 0, "C10-exactly-the-absent-members-in-order")
	} else {
		verifrt.Reach("other")
		verifrt.Assert(len(b.BlameNodes) == 1, "C10-exactly-the-absent-members-in-order")
	}
}

// C10: large committees.
// bound: 5, 9, 10 or 14 listed keys in ascending or descending order, any number of them (from the first or the last on) online, one of them possibly twice, a stranger possibly online, too
func VerifH_C10_Large() {
	conversion.SetupBech32Prefix()
	m := NewBlameManager()
	n := []int{5, 9, 10, 13}[verifrt.Choose("keys", 4)]
	down, last := verifrt.Choose("descending", 2) == 1, verifrt.Choose("last", 2) == 1
	var keys []string
	var online []peer.ID
	on := map[string]bool{}
	k := verifrt.Choose("online", n+1)
	for i := 0; i < n; i++ {
		j := i
		if down {
			j = n - 1 - i
		}
		keys = append(keys, verifnet.ManyKeys[j])
		if !last && i < k || last && n-1-i < k {
			on[verifnet.ManyKeys[j]] = true
			online = append(online, verifnet.ManyPeer(j))
		}
	}
	if k > 0 && verifrt.Choose("twice", 2) == 1 {
		online = append(online, online[0])
	}
	if verifrt.Choose("stranger", 2) == 1 {
		online = append(online, verifnet.ManyPeer(13))
	}
	given := append([]string{}, keys...)
	b, err := m.NodeSyncBlame(keys, online)
	verifrt.Reach("computed")
	verifrt.Assert(err == nil && b.FailReason == TssSyncFail, "C10-blame-computed")
	var want []string
	for _, x := range given {
		if !on[x] {
			want = append(want, x)
		}
	}
	verifrt.Assert(len(b.BlameNodes) == len(want), "C10-exactly-the-absent-members-in-order")
	for i, x := range b.BlameNodes {
		verifrt.Assert(i < len(want) && x.Pubkey == want[i], "C10-exactly-the-absent-members-in-order")
	}
}
