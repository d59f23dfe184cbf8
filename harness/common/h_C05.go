package common

import (
	"errors"

	btss "github.com/binance-chain/tss-lib/tss"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

type c05Entry struct {
	from, round int
	inst        string
	wire        []byte
}

// c05Check compares what the instances were handed and what was recorded with what was sent.
func c05Check(s *verifSession, sent []c05Entry) {
	for name, p := range s.inst {
		type slot struct {
			from  string
			round int
		}
		n := map[slot]int{}
		for _, h := range p.got {
			found := false
			for _, e := range sent {
				if string(e.wire) == string(h.wire) && e.inst == name && s.ids[e.from].Id == h.from.Id {
					found = true
					n[slot{h.from.Id, e.round}]++
					break
				}
			}
			verifrt.Assert(found, "C05-handed-to-the-instance-named-by-the-share")
		}
		for _, k := range n {
			verifrt.Assert(k <= 1, "C05-at-most-one-share-per-sender-and-round")
		}
	}
	for r, l := range blame.VerifAccepted(s.t.GetBlameMgr()) {
		for i := range l {
			for j := 0; j < i; j++ {
				verifrt.Assert(l[i] != l[j], "C05-accepted-share-recorded-once")
			}
			sender := false
			for _, e := range sent {
				if s.ids[e.from].Id == l[i] && e.inst == r.MsgIdentifier && verifRounds[e.round].RoundMsg == r.RoundMsg {
					sender = true
				}
			}
			verifrt.Assert(sender, "C05-recorded-for-its-sender-round-and-message")
		}
	}
	// what was handed over is recorded
	for _, e := range sent {
		for _, h := range s.inst[e.inst].got {
			if string(h.wire) == string(e.wire) {
				verifrt.Assert(s.accepted(e.round, e.inst, e.from) == 1, "C05-accepted-share-recorded-once")
			}
		}
	}
}

func c05Run(n int, rounds []int, bcast bool) {
	s := verifNewSession(3, 0, c05Insts...)
	var sent []c05Entry
	var last *messages.WireMessage
	for i := 0; i < n; i++ {
		if last != nil && verifrt.Choose("replay", 2) == 1 {
			s.deliver(messages.TSSKeySignMsg, s.peers[2], verifJSON(last))
			verifrt.Reach("replayed")
		} else {
			from := 1
			if i > 0 {
				from = 1 + verifrt.Choose("sender", 2)
			}
			round := rounds[verifrt.Choose("round", len(rounds))]
			size := 1 + verifrt.Choose("batch", 3)
			if i > 0 && !verifrt.Thorough() && size > 2 {
				size = 2
			}
			var batch []BulkWireMsg
			for j := 0; j < size; j++ {
				k := verifrt.Choose("instance", 2)
				// the first byte tells the instance and the round, the second one is arbitrary
				e := s.entry(from, round, bcast, c05Insts[k], append([]byte{byte(1 + 2*round + k)}, verifrt.Bytes("content", 1)...))
				// the routing names the other instance, which must not matter
				p := *e.Routing.From.MessageWrapper_PartyID
				p.Moniker = c05Insts[1-k]
				e.Routing.From = &btss.PartyID{MessageWrapper_PartyID: &p, Index: e.Routing.From.Index}
				batch = append(batch, e)
				sent = append(sent, c05Entry{from, round, c05Insts[k], e.WiredBulkMsgs})
			}
			last = s.share(from, round, bcast, batch...)
			s.deliver(messages.TSSKeySignMsg, s.peers[from], verifJSON(last))
			if len(batch) > 1 {
				verifrt.Reach("batch")
			}
		}
		s.sent()
		c05Check(s, sent)
	}
	if s.handed() > 1 {
		verifrt.Reach("applied several")
	}
}

// C05: broadcast shares are applied at most once per sender, round and message.
// bound: committee of three, two instances, two broadcast rounds; 2 messages from either sender, each a batch of 1..3 (then 1..2) shares for either instance with symbolic contents, or an exact replay of the message before
// outside: longer histories; larger committees
// stub: tss-lib parties record what they are handed and accept it; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C05_Broadcast() { c05Run(2, []int{1, 3}, true) }

// C05: unicast shares are applied at most once per sender, round and message.
// bound: committee of three, two instances, two unicast rounds; 2 messages from either sender, each a batch of 1..3 (then 1..2) shares for either instance with symbolic contents, or an exact replay of the message before
// outside: longer histories; larger committees
// stub: tss-lib parties record what they are handed and accept it; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C05_Unicast() { c05Run(2, []int{0, 2}, false) }

// C05: shares sent again and again, some of them refused by the instance.
// bound: committee of three, two instances, one round, 3 (quick) / 4 (thorough) messages of one share each from either sender for either instance, contents symbolic; every share handed over is accepted or refused without a culprit
// outside: longer histories
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C05_Repeats() {
	s := verifNewSession(3, 0, c05Insts...)
	k := 3
	if verifrt.Thorough() {
		k = 4
	}
	bcast := verifrt.Choose("broadcast", 2) == 1
	taken := map[string]int{}
	for name, p := range s.inst {
		name, p := name, p
		p.fail = func(h verifHand) *btss.Error {
			if verifrt.Choose("refused", 2) == 1 {
				return btss.NewError(errors.New("bad share"), "keysign", 1, p.id)
			}
			taken[name+"/"+h.from.Id]++
			return nil
		}
	}
	for i := 0; i < k; i++ {
		from := 1 + verifrt.Choose("sender", 2)
		k := verifrt.Choose("instance", 2)
		e := s.entry(from, 1, bcast, c05Insts[k], append([]byte{byte(1 + k)}, verifrt.Bytes("content", 1)...))
		s.deliver(messages.TSSKeySignMsg, s.peers[from], verifJSON(s.share(from, 1, bcast, e)))
		s.sent()
	}
	for _, name := range c05Insts {
		for from := 1; from <= 2; from++ {
			n := taken[name+"/"+s.ids[from].Id]
			verifrt.Assert(n <= 1, "C05-at-most-one-share-per-sender-and-round")
			verifrt.Assert(s.accepted(1, name, from) == n, "C05-record-lists-exactly-the-accepted-shares")
			if n == 1 {
				verifrt.Reach("accepted")
			}
		}
	}
}

// C05: a whole session: every share of every round is applied once to its instance and recorded once, under its round.
// bound: key generation or keysign (its last two rounds successful or aborted) of committees of 3, 5 and 9, this node at the beginning, in the middle or at the end; 1 or (quick run: committees of 3 and 5) 4 instances, the shares of a round in one batch or each on its own; in one round (any) everything is sent twice; one symbolic byte per share of that round; confirmations sent before or after the shares
// outside: rounds out of order (see the other harnesses)
// stub: tss-lib parties record what they are handed and accept it; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C05_Session() {
	sign := verifrt.Choose("keysign", 2) == 1
	n := []int{3, 5, 9}[verifrt.Choose("committee", 3)]
	me := []int{0, n / 2, n - 1}[verifrt.Choose("me", 3)]
	insts := []string{"7:0"}
	if sign && (n < 9 || verifrt.Thorough()) && verifrt.Choose("instances", 2) == 1 {
		insts = []string{"7:0", "7:1", "70:2", "8:10"}
	}
	typ, ver, rounds := verifProtocol(sign)
	if sign && verifrt.Choose("aborted", 2) == 1 {
		rounds[6], rounds[7] = 12, 13
	}
	s := verifNewSession(n, me, insts...)
	twice := verifrt.Choose("sent twice", len(rounds))
	single := verifrt.Choose("one by one", 2) == 1
	early := verifrt.Choose("confirmed before", 2) == 1
	type slot struct {
		from  string
		round int
		inst  string
	}
	want := map[slot][]byte{}
	for k, r := range rounds {
		bcast := !verifUnicast(r)
		for m := 0; m < n; m++ {
			if m == me {
				continue
			}
			var batch []BulkWireMsg
			for i, in := range insts {
				c := []byte{byte(1 + i), byte(1 + m), byte(1 + r), 0}
				if k == twice && m == (me+1)%n {
					c[3] = verifrt.Byte("content")
				}
				e := s.entry(m, r, bcast, in, c)
				want[slot{s.ids[m].Id, k, in}] = e.WiredBulkMsgs
				batch = append(batch, e)
			}
			var ws []*messages.WireMessage
			if single && len(insts) > 1 && !bcast {
				for _, e := range batch {
					ws = append(ws, s.share(m, r, bcast, e))
				}
			} else {
				ws = append(ws, s.share(m, r, bcast, batch...))
			}
			for _, w := range ws {
				times := 1
				if k == twice {
					times = 2
				}
				if bcast && early {
					s.confirm(ver, m, w)
				}
				for ; times > 0; times-- {
					s.deliver(typ, s.peers[m], verifJSON(w))
				}
				if bcast && !early {
					s.confirm(ver, m, w)
				}
				s.sent()
			}
		}
	}
	verifrt.Reach("over")
	for in, p := range s.inst {
		verifrt.Assert(len(p.got) == (n-1)*len(rounds), "C05-every-share-applied-once")
		at := 0
		for k := range rounds {
			for m := 0; m < n && at < len(p.got); m++ {
				if m == me {
					continue
				}
				h := p.got[at]
				verifrt.Assert(h.from.Id == s.ids[m].Id && string(h.wire) == string(want[slot{s.ids[m].Id, k, in}]) && h.bcast == !verifUnicast(rounds[k]), "C05-handed-to-the-instance-named-by-the-share")
				verifrt.Assert(s.accepted(rounds[k], in, m) == 1, "C05-accepted-share-recorded-once")
				at++
			}
		}
	}
	verifrt.Assert(len(blame.VerifAccepted(s.t.GetBlameMgr())) == len(rounds)*len(insts), "C05-recorded-for-its-sender-round-and-message")
}

// C05: repeats in large committees.
// bound: committees of 12 and 14, keygen or keysign with one or two instances; the first broadcast and the first unicast round, every member's shares arrive, then all of them again, in ascending or descending order; one symbolic byte per share of one member
// outside: larger committees
// stub: tss-lib parties record what they are handed and accept it; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C05_Large() {
	sign := verifrt.Choose("keysign", 2) == 1
	n := 12 + 2*verifrt.Choose("committee", 2)
	insts := []string{"7:0"}
	if sign {
		insts = append(insts, "7:1")
	}
	typ, ver, rounds := verifProtocol(sign)
	down := verifrt.Choose("descending", 2) == 1
	s := verifNewSession(n, 0, insts...)
	sym := 1 + verifrt.Choose("symbolic", n-1)
	done := map[bool]bool{}
	for _, r := range rounds {
		bcast := !verifUnicast(r)
		if done[bcast] {
			continue
		}
		done[bcast] = true
		ws := make([]*messages.WireMessage, n)
		for pass := 0; pass < 2; pass++ {
			for k := 1; k < n; k++ {
				m := k
				if down && pass == 1 {
					m = n - k
				}
				if pass == 0 {
					var batch []BulkWireMsg
					for i, in := range insts {
						c := []byte{byte(1 + i), byte(1 + m), byte(1 + r), 0}
						if m == sym {
							c[3] = verifrt.Byte("content")
						}
						batch = append(batch, s.entry(m, r, bcast, in, c))
					}
					ws[m] = s.share(m, r, bcast, batch...)
				}
				s.deliver(typ, s.peers[m], verifJSON(ws[m]))
				if bcast {
					s.confirm(ver, m, ws[m])
				}
				s.sent()
			}
		}
	}
	verifrt.Reach("over")
	for in, p := range s.inst {
		verifrt.Assert(len(p.got) == 2*(n-1), "C05-every-share-applied-once")
		for m := 1; m < n; m++ {
			times := 0
			for _, h := range p.got {
				if h.from.Id == s.ids[m].Id {
					times++
				}
			}
			verifrt.Assert(times == 2, "C05-at-most-one-share-per-sender-and-round")
		}
		for r := range done {
			for _, k := range rounds {
				if verifUnicast(k) == !r {
					for m := 1; m < n; m++ {
						verifrt.Assert(s.accepted(k, in, m) == 1, "C05-accepted-share-recorded-once")
					}
					break
				}
			}
		}
	}
}
