package blame

import (
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// c09Run records the shares of the messages as the solver likes and checks the blame.
func c09Run(n, me, rounds int, complete int, orders bool, msgs []string) {
	c := verifSetup(n, me)
	var others []string
	for _, id := range c.ids {
		if id != c.local {
			others = append(others, id)
		}
	}
	want := map[string]bool{}
	wantUnicast := false
	for _, m := range msgs {
		any, incomplete := false, false
		for r := 0; r < rounds; r++ {
			var missing []string
			for _, id := range others {
				if r < complete || verifrt.Bool("accepted") {
					c.m.UpdateAcceptShare(RoundInfo{Index: r, RoundMsg: "round", MsgIdentifier: m}, id)
					any = true
				} else {
					missing = append(missing, id)
				}
			}
			if len(missing) != 0 && !incomplete {
				incomplete = true
				c09Mark(want, m, missing)
				if rounds == messages.TSSKEYGENROUNDS && r == 1 || rounds == messages.TSSKEYSIGNROUNDS && r < 5 {
					want["unicast "+m] = true
				}
			}
		}
		if !any {
			// no record for this message: it is not part of the blame
			for _, id := range others {
				delete(want, m+" "+id)
			}
			delete(want, "unicast "+m)
		}
	}
	for _, m := range msgs {
		if want["unicast "+m] {
			wantUnicast = true
		}
	}
	if orders && verifrt.Thorough() {
		verifrt.MapOrders(true)
	} else if orders {
		verifrt.MapDeviations(2)
	}
	nodes, unicast, err := c.m.TssMissingShareBlame(rounds)
	verifrt.Assert(err == nil, "C09-blame-computed")
	total := 0
	for _, id := range c.ids {
		w := false
		for _, m := range msgs {
			if want[m+" "+id] {
				w = true
			}
		}
		if w {
			total++
		}
		verifrt.Assert((verifCount(nodes, c.keyOf[id]) > 0) == w, "C09-exactly-the-members-missing-in-the-first-incomplete-round")
	}
	if total > 0 {
		verifrt.Reach("blamed")
	} else {
		verifrt.Reach("nobody")
		verifrt.Assert(len(nodes) == 0, "C09-complete-message-adds-nobody")
	}
	verifrt.Assert(unicast == wantUnicast, "C09-unicast-flag")
}

func c09Mark(want map[string]bool, m string, missing []string) {
	for _, id := range missing {
		want[m+" "+id] = true
	}
}

// C09: two messages, few rounds.
// bound: committee of 3, every local node, 2 messages of any distinct 1-byte ids, 2 rounds, every set of recorded shares, map orders with up to 2 deviations from insertion order (quick) / every order (thorough)
func VerifH_C09_Two() {
	a, b := verifrt.Str("a", 1), verifrt.Str("b", 1)
	verifrt.Assume(a != b)
	c09Run(3, verifrt.Choose("me", 3), 2, 0, true, []string{a, b})
}

// C09: a keygen session (4 rounds).
// bound: committee of 3, one message, the 4 keygen rounds, every set of recorded shares
func VerifH_C09_Keygen() {
	c09Run(3, verifrt.Choose("me", 3), messages.TSSKEYGENROUNDS, 0, verifrt.Thorough(), []string{""})
}

// C09: a keysign session (8 rounds).
// bound: committee of 2, one message, the 8 keysign rounds, every set of recorded shares
func VerifH_C09_Keysign() {
	c09Run(2, verifrt.Choose("me", 2), messages.TSSKEYSIGNROUNDS, 0, false, []string{"m"})
}

// C09: a larger committee.
// bound: committee of 4, 2 messages, 2 rounds of which the first is complete or not, every order
// tier: thorough
func VerifH_C09_Four() {
	c09Run(4, verifrt.Choose("me", 4), 2, verifrt.Choose("complete", 2), true, []string{"a", "b"})
}

// C09: three messages.
// bound: committee of 2, 3 messages, 2 rounds, every order
func VerifH_C09_Three() {
	c09Run(2, verifrt.Choose("me", 2), 2, 0, true, []string{"a", "b", "c"})
}

// C09: large committees and batches.
// bound: committees of 5, 9 and 13, 1, 4 or 11 messages; keygen or keysign rounds; every message complete up to any round, in which any number of members (the first or the last of the party order) are missing, for the first message, the last one or all of them
func VerifH_C09_Large() {
	n := []int{5, 9, 13}[verifrt.Choose("committee", 3)]
	c := verifSetupOf(verifnet.ManyKeys, n, n/2)
	rounds := []int{messages.TSSKEYGENROUNDS, messages.TSSKEYSIGNROUNDS}[verifrt.Choose("session", 2)]
	msgs := []string{"0", "1", "10", "2", "3", "4", "5", "6", "7", "8", "9"}[:[]int{1, 4, 11}[verifrt.Choose("messages", 3)]]
	which := verifrt.Choose("incomplete", 3)
	stop := verifrt.Choose("complete rounds", rounds)
	last := verifrt.Choose("last", 2) == 1
	k := []int{1, 2, n - 2, n - 1}[verifrt.Choose("missing", 4)]
	missing := map[string]bool{}
	for i := range c.ids {
		id := c.ids[i]
		if last {
			id = c.ids[n-1-i]
		}
		if id != c.local && len(missing) < k {
			missing[id] = true
		}
	}
	blamed := false
	for i, m := range msgs {
		short := which == 0 && i == 0 || which == 1 && i == len(msgs)-1 || which == 2
		for r := 0; r < rounds; r++ {
			for _, id := range c.ids {
				if id == c.local || short && (r == stop && missing[id] || r > stop) {
					continue
				}
				c.m.UpdateAcceptShare(RoundInfo{Index: r, RoundMsg: "round", MsgIdentifier: m}, id)
			}
		}
		// a message of which nothing was recorded is not part of the blame
		blamed = blamed || short && !(stop == 0 && k == n-1)
	}
	nodes, _, err := c.m.TssMissingShareBlame(rounds)
	verifrt.Assert(err == nil, "C09-blame-computed")
	if blamed {
		verifrt.Reach("blamed")
	} else {
		verifrt.Reach("nobody")
	}
	for _, id := range c.ids {
		verifrt.Assert((verifCount(nodes, c.keyOf[id]) > 0) == (blamed && missing[id]), "C09-exactly-the-members-missing-in-the-first-incomplete-round")
	}
}
