package common

import (
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// c04Votes holds one report per voter.
type c04Votes struct {
	who  []int
	hash []string
}

func (v *c04Votes) add(who int, hash string) {
	for _, w := range v.who {
		if w == who {
			return // one vote each
		}
	}
	v.who, v.hash = append(v.who, who), append(v.hash, hash)
}

// quorum tells whether the votes allow applying a share with hash h under threshold t.
func (v *c04Votes) quorum(h string, t int) bool {
	if len(v.who) < t {
		return false
	}
	n := 0
	for _, x := range v.hash {
		if x == h {
			n++
		}
	}
	if n < t-1 {
		return false
	}
	for _, x := range v.hash {
		k := 0
		for _, y := range v.hash {
			if x == y {
				k++
			}
		}
		if k > n {
			return false
		}
	}
	return true
}

func c04Run(n, events int) {
	const owner = 1
	s := verifNewSession(n, 0, "m")
	w := s.share(owner, 1, true, s.entry(owner, 1, true, "m", verifrt.Bytes("content", 1)))
	own, err := conversion.BytesToHashString(w.Message)
	verifrt.Assert(err == nil, "setup")
	votes := &c04Votes{}
	t := c04Threshold(n)
	arrived, ownerVoted := false, false
	if verifrt.Choose("map order", 2) == 1 {
		verifrt.MapReverse()
	}
	for i := 0; i < events; i++ {
		ev := verifrt.Choose("event", n+1)
		before := s.handed()
		switch {
		case ev == 0: // the share arrives
			arrived = true
			votes.add(0, own)
			s.deliver(messages.TSSKeySignMsg, s.peers[owner], verifJSON(w))
		default: // a report: by member ev, or by a peer that is no member
			p := s.other
			if ev < n {
				p = s.peers[ev]
			}
			h := own
			if verifrt.Choose("hash", 2) == 1 {
				h = "x" + verifrt.Str("other hash", 1)
				verifrt.Assume(h[1] >= 'a' && h[1] <= 'z')
			}
			if ev == owner {
				ownerVoted = true
			} else if ev < n {
				votes.add(ev, h)
			}
			s.deliver(messages.TSSKeySignVerMsg, p, verifJSON(&messages.BroadcastConfirmMessage{P2PID: s.peers[3].String(), Key: w.GetCacheKey(), Hash: h}))
		}
		s.sent()
		if s.handed() > before {
			verifrt.Reach("applied")
			verifrt.Assert(arrived && votes.quorum(own, t), "C04-applied-only-with-a-quorum")
			return
		}
	}
	if ownerVoted {
		verifrt.Reach("owner voted")
	}
	verifrt.Reach("not applied")
}

// C04: a broadcast share is applied only with a quorum of reports for it.
// bound: committees of four (threshold 2); 4 events: the share arrives (again), or a member (the owner too) or a stranger reports the hash of the share or another symbolic hash; maps iterated in insertion order or in reverse
// outside: larger committees in this harness; more events
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C04_Four() {
	k := 4
	if verifrt.Thorough() {
		k = 5
	}
	c04Run(4, k)
}

// C04: the same in a committee of five, where the reports have to agree.
// bound: committees of five (threshold 3); up to 3 (quick) / 4 (thorough) reports by different members or a stranger, the share arriving first or second
// outside: other arrival orders (see the committee of four)
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C04_Five() {
	k := 4
	if verifrt.Thorough() {
		k = 5
	}
	const owner = 1
	n := 5
	s := verifNewSession(n, 0, "m")
	w := s.share(owner, 1, true, s.entry(owner, 1, true, "m", verifrt.Bytes("content", 1)))
	own, err := conversion.BytesToHashString(w.Message)
	verifrt.Assert(err == nil, "setup")
	votes := &c04Votes{}
	votes.add(0, own)
	pos := verifrt.Choose("share arrives as", 2) // first, or after the first report
	last := 0
	for i := 0; i < k; i++ {
		before := s.handed()
		if i == pos {
			s.deliver(messages.TSSKeySignMsg, s.peers[owner], verifJSON(w))
		} else {
			ev := last + 1 + verifrt.Choose("reporter", n-last)
			if ev > n {
				break
			}
			last = ev
			p := s.other
			if ev < n {
				p = s.peers[ev]
			}
			h := own
			if verifrt.Choose("hash", 2) == 1 {
				h = "x" + verifrt.Str("other hash", 1)
				verifrt.Assume(h[1] >= 'a' && h[1] <= 'z')
			}
			if ev != owner && ev < n {
				votes.add(ev, h)
			}
			s.deliver(messages.TSSKeySignVerMsg, p, verifJSON(&messages.BroadcastConfirmMessage{Key: w.GetCacheKey(), Hash: h}))
			if last == n {
				i = k
			}
		}
		s.sent()
		if s.handed() > before {
			verifrt.Reach("applied")
			verifrt.Assert(votes.quorum(own, c04Threshold(n)), "C04-applied-only-with-a-quorum")
			return
		}
	}
	verifrt.Reach("not applied")
}

// C04: when the owner sends different shares to different members, the hash this node computed for the share it applies has the quorum.
// bound: committee of four; two different shares (symbolic contents) of one owner and round, 4 events in any order: either share arrives (or is returned on request), or another member reports the hash of either
// outside: three or more versions
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C04_Equivocation() {
	c04Equivocation(4, 4, false)
}

// C04: the same in a committee of five, where one report more is needed.
// bound: committee of five (threshold 3); two different shares (symbolic contents) of one owner and round, 5 (thorough: 6) events in any order: either share arrives from its owner, or the next member in ascending order reports the hash of either
// outside: members reporting in another order; three or more versions
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C04_EquivocationFive() {
	k := 5
	if verifrt.Thorough() {
		k = 6
	}
	c04Equivocation(5, k, true)
}

func c04Equivocation(n, events int, ascending bool) {
	const owner = 1
	s := verifNewSession(n, 0, "m")
	var ws []*messages.WireMessage
	var hs []string
	c := verifrt.Bytes("content", 2)
	verifrt.Assume(c[0] != c[1])
	for i := 0; i < 2; i++ {
		w := s.share(owner, 1, true, s.entry(owner, 1, true, "m", c[i:i+1]))
		h, err := conversion.BytesToHashString(w.Message)
		verifrt.Assert(err == nil, "setup")
		ws, hs = append(ws, w), append(hs, h)
	}
	if verifrt.Choose("map order", 2) == 1 {
		verifrt.MapReverse()
	}
	votes := []*c04Votes{{}, {}} // self counted for version i
	arrived := []bool{false, false}
	next := 2
	for i := 0; i < events; i++ {
		before := s.handed()
		ev := 0
		if !ascending {
			ev = verifrt.Choose("event", 4)
		} else if next < n && verifrt.Choose("report", 2) == 1 {
			ev = next
			next++
		}
		v := verifrt.Choose("version", 2)
		if ev < 2 {
			arrived[v] = true
			votes[v].add(0, hs[v])
			if ev == 0 {
				s.deliver(messages.TSSKeySignMsg, s.peers[owner], verifJSON(ws[v]))
			} else {
				s.deliver(messages.TSSControlMsg, s.peers[2], verifJSON(&messages.TssControl{ReqHash: hs[v], ReqKey: ws[v].GetCacheKey(), RequestType: messages.TSSKeySignMsg, Msg: ws[v]}))
			}
		} else {
			votes[0].add(ev, hs[v])
			votes[1].add(ev, hs[v])
			s.deliver(messages.TSSKeySignVerMsg, s.peers[ev], verifJSON(&messages.BroadcastConfirmMessage{Key: ws[v].GetCacheKey(), Hash: hs[v]}))
		}
		s.sent()
		if s.handed() == before {
			continue
		}
		g := s.inst["m"].got[len(s.inst["m"].got)-1]
		verifrt.Assert(s.handed() == before+1, "C04-one-version-is-applied")
		for k := 0; k < 2; k++ {
			if string(g.wire) == string(verifWire(s.ids[owner], 1, true, c[k:k+1])) {
				verifrt.Reach("applied")
				verifrt.Assert(arrived[k] && votes[k].quorum(hs[k], c04Threshold(n)), "C04-applied-only-with-a-quorum")
			}
		}
		return
	}
	verifrt.Reach("not applied")
}

// c04Large delivers the share of member 1 and reports on it by the others.
func c04Large(n int, report func(m int) int, first bool) {
	const owner = 1
	s := verifNewSession(n, 0, "m")
	w := s.share(owner, 1, true, s.entry(owner, 1, true, "m", verifrt.Bytes("content", 1)))
	own, err := conversion.BytesToHashString(w.Message)
	verifrt.Assert(err == nil, "setup")
	votes := &c04Votes{}
	arrived := false
	share := func() {
		arrived = true
		votes.add(0, own)
		s.deliver(messages.TSSKeySignMsg, s.peers[owner], verifJSON(w))
	}
	check := func() bool {
		s.sent()
		if s.handed() == 0 {
			return false
		}
		verifrt.Reach("applied")
		verifrt.Assert(arrived && votes.quorum(own, c04Threshold(n)), "C04-applied-only-with-a-quorum")
		return true
	}
	if first {
		share()
	}
	for m := 2; m < n; m++ {
		c := report(m)
		if c == 0 {
			continue
		}
		h := []string{"", own, "x", "y"}[c]
		votes.add(m, h)
		s.deliver(messages.TSSKeySignVerMsg, s.peers[m], verifJSON(&messages.BroadcastConfirmMessage{Key: w.GetCacheKey(), Hash: h}))
		if check() {
			return
		}
	}
	if !first {
		share()
		if check() {
			return
		}
	}
	verifrt.Reach("not applied")
	// members that agree with the share are enough
	k, total := 1, len(votes.who)
	for i, h := range votes.hash {
		if i > 0 && votes.who[i] != 0 && h == own {
			k++
		}
	}
	if !first {
		k = 0
		for _, h := range votes.hash {
			if h == own {
				k++
			}
		}
	}
	verifrt.Assert(k < total || total < c04Threshold(n), "C04-applied-with-an-agreeing-quorum")
}

// C04: the quorum in larger committees.
// bound: committees of six and seven (thresholds 3 and 4); the share (symbolic content) arriving before or after the reports; each member but the owner reports, in ascending order, the hash of the share, one of two other hashes, or nothing
// outside: reports in other orders, repeated or by strangers (see the smaller committees)
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C04_Seven() {
	n := 6 + verifrt.Choose("committee", 2)
	c04Large(n, func(int) int { return verifrt.Choose("report", 4) }, verifrt.Choose("share first", 2) == 1)
}

// C04: the quorum in large committees.
// bound: committees of 8 to 13 (thresholds 5 to 8); the share arriving before or after the reports; the members report in ascending order: first any number of them the hash of the share, then any number another hash, the rest a third one or nothing; or the same in reverse
// outside: other orders
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C04_Large() {
	n := 8 + verifrt.Choose("committee", 6)
	a := verifrt.Choose("reports of the share", n-1)
	b := verifrt.Choose("reports of another", n-1-a)
	rest := []int{0, 3}[verifrt.Choose("the rest", 2)]
	up := verifrt.Choose("ascending", 2) == 1
	c04Large(n, func(m int) int {
		i := m - 2
		if !up {
			i = n - 1 - m
		}
		switch {
		case i < a:
			return 1
		case i < a+b:
			return 2
		}
		return rest
	}, verifrt.Choose("share first", 2) == 1)
}
