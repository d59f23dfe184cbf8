package blame

import (
	"sync"

	btss "github.com/binance-chain/tss-lib/tss"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

type verifParty struct {
	btss.Party
	id *btss.PartyID
}

func (p *verifParty) PartyID() *btss.PartyID { return p.id }

type verifCommittee struct {
	m      *Manager
	ids    []string          // party ids, in party order
	keyOf  map[string]string // party id -> public key
	peerOf map[string]int    // party id -> index into verifnet.Keys/PeerIDs
	local  string
}

// verifSetup returns the blame manager of node `me` in a committee of the first n fixture keys.
func verifSetup(n, me int) *verifCommittee {
	return verifSetupOf(verifnet.Keys, n, me)
}

func verifSetupOf(pool []string, n, me int) *verifCommittee {
	conversion.SetupBech32Prefix()
	keys := append([]string{}, pool[:n]...)
	parties, local, err := conversion.GetParties(keys, pool[me])
	verifrt.Assert(err == nil, "setup")
	c := &verifCommittee{m: NewBlameManager(), keyOf: map[string]string{}, peerOf: map[string]int{}, local: local.Id}
	pm := conversion.SetupPartyIDMap(parties)
	verifrt.Assert(conversion.SetupIDMaps(pm, c.m.PartyIDtoP2PID) == nil, "setup")
	for _, p := range parties {
		c.ids = append(c.ids, p.Id)
		k, err := conversion.PartyIDtoPubKey(p)
		verifrt.Assert(err == nil, "setup")
		c.keyOf[p.Id] = k
		for i := range pool {
			if pool[i] == k {
				c.peerOf[p.Id] = i
			}
		}
	}
	partyMap := &sync.Map{}
	partyMap.Store("m", &verifParty{id: local})
	c.m.SetPartyInfo(partyMap, pm)
	return c
}

func verifCount(nodes []Node, pk string) int {
	n := 0
	for _, x := range nodes {
		if x.Pubkey == pk {
			n++
		}
	}
	return n
}

// VerifAccepted is the record of accepted shares.
func VerifAccepted(m *Manager) map[RoundInfo][]string { return m.acceptedShares }
