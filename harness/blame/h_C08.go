package blame

import (
	btss "github.com/binance-chain/tss-lib/tss"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C08: the unicast timeout blame.
// bound: committees of 2..3 (quick) / 2..4 (thorough), every local node, 3 (quick) / 4 (thorough) unicast messages of any round (1-byte names) from any member, map orders with one deviation from insertion order
func VerifH_C08_Unicast() {
	nmax, k := 2, 3
	if verifrt.Thorough() {
		nmax, k = 3, 4
	}
	n := 2 + verifrt.Choose("committee", nmax)
	c := verifSetup(n, verifrt.Choose("me", n))
	round := verifrt.Str("round", 1)
	heard := map[string]bool{}
	any := false
	for i := 0; i < k; i++ {
		r := verifrt.Str("msground", 1)
		from := c.ids[verifrt.Choose("from", n)]
		c.m.SetLastUnicastPeer(verifnet.Peer(c.peerOf[from]), r)
		if r == round {
			heard[from] = true
			any = true
		}
	}
	verifrt.MapDeviations(1)
	nodes, err := c.m.GetUnicastBlame(round)
	if !any {
		verifrt.Reach("nothing")
		verifrt.Assert(len(nodes) == 0, "C08-nobody-blamed-when-nothing-of-the-round-was-received")
		return
	}
	verifrt.Reach("some")
	verifrt.Assert(err == nil, "C08-blame-computed")
	c08Check(c, heard, nodes)
}

func c08Check(c *verifCommittee, heard map[string]bool, nodes []Node) {
	want := 0
	for _, id := range c.ids {
		x := 0
		if id != c.local && !heard[id] {
			x = 1
			want++
		}
		verifrt.Assert(verifCount(nodes, c.keyOf[id]) == x, "C08-exactly-the-members-not-heard-from")
	}
	verifrt.Assert(len(nodes) == want, "C08-exactly-the-members-not-heard-from")
}

// C08: a node that never got a unicast message blames nobody.
func VerifH_C08_NoUnicast() {
	c := verifSetup(3, 0)
	nodes, err := c.m.GetUnicastBlame(verifrt.Str("round", 2))
	verifrt.Reach("done")
	verifrt.Assert(err == nil && len(nodes) == 0, "C08-nobody-blamed-when-nothing-of-the-round-was-received")
}

// C08: the broadcast timeout blame.
// bound: committees of 2..3 (quick) / 2..4 (thorough), every local node, 3 (quick) / 4 (thorough) stored shares of any round (1-byte names) from any member, map orders with one deviation from insertion order
func VerifH_C08_Broadcast() {
	nmax, k := 2, 3
	if verifrt.Thorough() {
		nmax, k = 3, 4
	}
	n := 2 + verifrt.Choose("committee", nmax)
	c := verifSetup(n, verifrt.Choose("me", n))
	round := verifrt.Str("round", 1)
	heard := map[string]bool{}
	any := false
	for i := 0; i < k; i++ {
		r := verifrt.Str("msground", 1)
		from := c.ids[verifrt.Choose("from", n)]
		w := &messages.WireMessage{Routing: &btss.MessageRouting{From: c.m.partyInfo.PartyIDMap[from], IsBroadcast: true}, RoundInfo: r}
		c.m.GetRoundMgr().Set(w.GetCacheKey(), w)
		if r == round {
			heard[from] = true
			any = true
		}
	}
	verifrt.MapDeviations(1)
	nodes, err := c.m.GetBroadcastBlame(round)
	verifrt.Assert(err == nil, "C08-blame-computed")
	if !any {
		verifrt.Reach("nothing")
		verifrt.Assert(len(nodes) == 0, "C08-nobody-blamed-when-nothing-of-the-round-was-received")
		return
	}
	verifrt.Reach("some")
	c08Check(c, heard, nodes)
}

// C08: large committees.
// bound: committees of 5, 9 and 13, unicast or broadcast; any number of members (the first or the last of the party order) heard from, each once or twice, the others heard from in another round or not at all
func VerifH_C08_Large() {
	n := []int{5, 9, 13}[verifrt.Choose("committee", 3)]
	c := verifSetupOf(verifnet.ManyKeys, n, []int{0, n / 2, n - 1}[verifrt.Choose("me", 3)])
	unicast := verifrt.Choose("unicast", 2) == 1
	last, other := verifrt.Choose("last", 2) == 1, verifrt.Choose("other round", 2) == 1
	k, times := verifrt.Choose("heard from", n), 1+verifrt.Choose("twice", 2)
	const round = messages.KEYSIGN3
	hear := func(id, r string) {
		if unicast {
			c.m.SetLastUnicastPeer(verifnet.ManyPeer(c.peerOf[id]), r)
			return
		}
		w := &messages.WireMessage{Routing: &btss.MessageRouting{From: c.m.partyInfo.PartyIDMap[id], IsBroadcast: true}, RoundInfo: r}
		c.m.GetRoundMgr().Set(w.GetCacheKey(), w)
	}
	heard := map[string]bool{}
	for i := range c.ids {
		id := c.ids[i]
		if last {
			id = c.ids[n-1-i]
		}
		if id == c.local {
			continue
		}
		if other {
			hear(id, messages.KEYSIGN2Unicast)
		}
		if len(heard) < k {
			heard[id] = true
			for j := 0; j < times; j++ {
				hear(id, round)
			}
		}
		if other && unicast {
			hear(id, messages.KEYSIGN4)
		}
	}
	var nodes []Node
	var err error
	if unicast {
		nodes, err = c.m.GetUnicastBlame(round)
	} else {
		nodes, err = c.m.GetBroadcastBlame(round)
	}
	if k == 0 {
		verifrt.Reach("nothing")
		verifrt.Assert(len(nodes) == 0, "C08-nobody-blamed-when-nothing-of-the-round-was-received")
		return
	}
	verifrt.Reach("some")
	verifrt.Assert(err == nil, "C08-blame-computed")
	c08Check(c, heard, nodes)
}
