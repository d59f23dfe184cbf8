package common

import (
	"bytes"
	"encoding/json"

	"github.com/binance-chain/tss-lib/ecdsa/signing"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// c11Share is one share tss-lib produces: kind 0 is a unicast to member to, the others are broadcasts.
type c11Share struct {
	inst, kind, to int
	content        []byte
	done           bool
}

func (x *c11Share) group() int { return 4*x.kind + x.to }

func (x *c11Share) message(s *verifSession) btss.ParsedMessage {
	from := btss.NewPartyID(s.ids[0].Id, c11Insts[x.inst], s.ids[0].KeyInt())
	from.Index = s.ids[0].Index
	var content btss.MessageContent
	r := btss.MessageRouting{From: from, IsBroadcast: true}
	switch x.kind {
	case 0:
		content = &signing.SignRound1Message1{C: x.content}
		to := btss.NewPartyID(s.ids[x.to].Id, "", s.ids[x.to].KeyInt())
		to.Index = s.ids[x.to].Index
		r = btss.MessageRouting{From: from, To: []*btss.PartyID{to}}
	case 1:
		content = &signing.SignRound1Message2{Commitment: x.content}
	default:
		content = &signing.SignRound3Message{DeltaI: x.content}
	}
	return btss.NewMessage(r, content, btss.NewMessageWrapper(r, content))
}

var c11Insts = []string{"7:0", "7:1", "8:2"}

func c11Run(insts int, shares []*c11Share, typ messages.THORChainTSSMessageType) {
	s := verifNewSession(3, 0, c11Insts[:insts]...)
	if verifrt.Choose("map order", 2) == 1 {
		verifrt.MapReverse()
	}
	for i, x := range shares {
		x.content = verifrt.Bytes("content", 1) // may be equal
		if insts > 1 {
			// the first byte keeps the shares apart
			x.content = append([]byte{byte(i + 1)}, x.content...)
		}
	}
	for left := len(shares); left > 0; left-- {
		k := verifrt.Choose("next", left)
		var x *c11Share
		for _, y := range shares {
			if y.done {
				continue
			}
			if k == 0 {
				x = y
				break
			}
			k--
		}
		m := x.message(s)
		verifrt.Assert(s.t.ProcessOutCh(m, typ) == nil, "C11-share-taken")
		x.done = true
		var group []*c11Share
		complete := true
		for _, y := range shares {
			if y.group() == x.group() {
				group = append(group, y)
				complete = complete && y.done
			}
		}
		sent := s.sent()
		if !complete {
			verifrt.Reach("waits")
			verifrt.Assert(len(sent) == 0, "C11-nothing-sent-before-the-batch-is-complete")
			continue
		}
		verifrt.Assert(len(sent) == 1, "C11-complete-batch-sent-once-at-once")
		verifrt.Reach("sent")
		b := sent[0]
		verifrt.Assert(b.WrappedMessage.MsgID == verifMsgID && b.WrappedMessage.MessageType == typ, "C11-sent-for-this-session")
		want := []peer.ID{s.peers[1], s.peers[2]}
		if x.kind == 0 {
			want = []peer.ID{s.peers[x.to]}
		}
		verifrt.Assert(c11Same(b.PeersID, want), "C11-sent-to-exactly-the-destination")
		var w messages.WireMessage
		verifrt.Assert(json.Unmarshal(b.WrappedMessage.Payload, &w) == nil, "C11-batch-decodes")
		verifrt.Assert(w.RoundInfo == m.Type(), "C11-batch-names-its-round")
		verifrt.Assert(hasSender(w.Routing) && w.Routing.From.Id == s.ids[0].Id && w.Routing.IsBroadcast == (x.kind != 0), "C11-batch-names-its-sender")
		verifrt.Assert(s.priv[0].PubKey().VerifySignature(append(append([]byte(nil), w.Message...), verifMsgID...), w.Sig), "C11-batch-signed-by-this-node")
		var l []BulkWireMsg
		verifrt.Assert(json.Unmarshal(w.Message, &l) == nil, "C11-batch-decodes")
		verifrt.Assert(len(l) == len(group), "C11-batch-has-every-share-once")
		for _, y := range group {
			wire, _, err := y.message(s).WireBytes()
			verifrt.Assert(err == nil, "setup")
			n := 0
			for _, e := range l {
				if e.MsgIdentifier != c11Insts[y.inst] {
					continue
				}
				n++
				verifrt.Assert(bytes.Equal(e.WiredBulkMsgs, wire), "C11-share-with-its-own-message")
				verifrt.Assert(hasSender(e.Routing) && e.Routing.From.Id == s.ids[0].Id && e.Routing.IsBroadcast == (x.kind != 0), "C11-share-names-its-sender")
			}
			verifrt.Assert(n == 1, "C11-batch-has-every-share-once")
		}
		// the others accept it
		_, err := GetMsgRound(l[0].WiredBulkMsgs, s.ids[0], x.kind != 0)
		verifrt.Assert(err == nil, "C11-share-is-parseable")
	}
	verifrt.Assert(len(s.sent()) == 0, "C11-nothing-left")
}

// C11: the shares of two concurrent messages in any order.
// bound: committee of three; two signing instances, each producing a unicast share for either other member and a broadcast share (thorough: two), contents symbolic; every order in which tss-lib hands them over; maps iterated in insertion order or in reverse
// outside: larger committees, more rounds at once
// stub: tss-lib messages are built by the harness; signatures are ideal
// limit: 300s
func VerifH_C11_Two() {
	var l []*c11Share
	for i := 0; i < 2; i++ {
		l = append(l, &c11Share{inst: i, to: 1}, &c11Share{inst: i, to: 2}, &c11Share{inst: i, kind: 1})
	}
	if verifrt.Thorough() {
		l = append(l, &c11Share{inst: 0, kind: 2}, &c11Share{inst: 1, kind: 2})
	}
	c11Run(2, l, messages.TSSKeySignMsg)
}

// C11: the shares of three concurrent messages, broadcasts of two rounds.
// bound: committee of three; three signing instances, each producing a broadcast share of two rounds, contents symbolic; every order
// outside: larger committees, more rounds at once
// stub: tss-lib messages are built by the harness; signatures are ideal
// limit: 300s
func VerifH_C11_Three() {
	var l []*c11Share
	for i := 0; i < 3; i++ {
		l = append(l, &c11Share{inst: i, kind: 1}, &c11Share{inst: i, kind: 2})
	}
	c11Run(3, l, messages.TSSKeySignMsg)
}

// C11: key generation has one instance, every share leaves at once.
// bound: committee of three; a unicast share for either other member and two broadcast shares, in any order
// outside: larger committees
// stub: tss-lib messages are built by the harness; signatures are ideal
// limit: 120s
func VerifH_C11_Keygen() {
	verifrt.Reach("waits") // it never does
	c11Run(1, []*c11Share{{to: 1}, {to: 2}, {kind: 1}, {kind: 2}}, messages.TSSKeyGenMsg)
}

// C11: whole sessions of larger committees.
// bound: keygen or keysign of committees of 3, 5, 9 and 13, this node at the beginning, in the middle or at the end, with 1 or 4 (committees of 13: 2) instances; every round in order, its shares handed over instance by instance or destination by destination, in ascending or descending order; one symbolic byte per share of one round
// outside: other orders (see the committee of three)
// stub: tss-lib messages are built by the harness; signatures are ideal
// limit: 300s
func VerifH_C11_Session() {
	sign := verifrt.Choose("keysign", 2) == 1
	n := []int{3, 5, 9, 13}[verifrt.Choose("committee", 4)]
	me := []int{0, n / 2, n - 1}[verifrt.Choose("me", 3)]
	insts := []string{"7:0"}
	if sign && verifrt.Choose("instances", 2) == 1 {
		insts = []string{"7:0", "7:1", "70:2", "8:10"}
		if n == 13 {
			insts = insts[:2]
		}
	}
	typ, _, rounds := verifProtocol(sign)
	if sign && verifrt.Choose("aborted", 2) == 1 {
		rounds[6], rounds[7] = 12, 13
	}
	byDest := verifrt.Choose("order", 2) == 1
	down := verifrt.Choose("descending", 2) == 1
	s := verifNewSession(n, me, insts...)
	for _, r := range rounds {
		bcast := !verifUnicast(r)
		var dests []int
		if bcast {
			dests = []int{-1}
		} else {
			for m := range s.ids {
				if m != me {
					dests = append(dests, m)
				}
			}
		}
		left := map[int]int{}
		wires := map[int]map[string][]byte{}
		for _, d := range dests {
			left[d] = len(insts)
			wires[d] = map[string][]byte{}
		}
		for i := 0; i < len(dests)*len(insts); i++ {
			k := i
			if down {
				k = len(dests)*len(insts) - 1 - i
			}
			d, in := dests[k%len(dests)], k/len(dests)
			if byDest {
				d, in = dests[k/len(insts)], k%len(insts)
			}
			from := btss.NewPartyID(s.ids[me].Id, insts[in], s.ids[me].KeyInt())
			from.Index = s.ids[me].Index
			var to []*btss.PartyID
			if !bcast {
				to = []*btss.PartyID{s.ids[d]}
			}
			m := VerifMessage(from, to, r, bcast, []byte{byte(1 + in), byte(2 + d), byte(r)})
			wire, _, err := m.WireBytes()
			verifrt.Assert(err == nil, "setup")
			wires[d][insts[in]] = wire
			verifrt.Assert(s.t.ProcessOutCh(m, typ) == nil, "C11-share-taken")
			sent := s.sent()
			if left[d]--; left[d] > 0 {
				verifrt.Assert(len(sent) == 0, "C11-nothing-sent-before-the-batch-is-complete")
				continue
			}
			verifrt.Assert(len(sent) == 1, "C11-complete-batch-sent-once-at-once")
			b := sent[0]
			verifrt.Assert(b.WrappedMessage.MsgID == verifMsgID && b.WrappedMessage.MessageType == typ, "C11-sent-for-this-session")
			var want []peer.ID
			for x := range s.peers {
				if x != me && (bcast || x == d) {
					want = append(want, s.peers[x])
				}
			}
			verifrt.Assert(c11Same(b.PeersID, want), "C11-sent-to-exactly-the-destination")
			var w messages.WireMessage
			verifrt.Assert(json.Unmarshal(b.WrappedMessage.Payload, &w) == nil, "C11-batch-decodes")
			verifrt.Assert(w.RoundInfo == verifRounds[r].RoundMsg && hasSender(w.Routing) && w.Routing.From.Id == s.ids[me].Id && w.Routing.IsBroadcast == bcast, "C11-batch-names-its-round")
			verifrt.Assert(s.priv[me].PubKey().VerifySignature(append(append([]byte(nil), w.Message...), verifMsgID...), w.Sig), "C11-batch-signed-by-this-node")
			var l []BulkWireMsg
			verifrt.Assert(json.Unmarshal(w.Message, &l) == nil && len(l) == len(insts), "C11-batch-has-every-share-once")
			for _, e := range l {
				wire := wires[d][e.MsgIdentifier]
				verifrt.Assert(wire != nil && bytes.Equal(e.WiredBulkMsgs, wire), "C11-share-with-its-own-message")
				wires[d][e.MsgIdentifier] = nil
				got, err := GetMsgRound(e.WiredBulkMsgs, s.ids[me], bcast)
				verifrt.Assert(err == nil && got.RoundMsg == verifRounds[r].RoundMsg && got.Index == verifRounds[r].Index, "C11-share-is-parseable")
			}
		}
	}
	verifrt.Reach("over")
	verifrt.Assert(len(s.sent()) == 0, "C11-nothing-left")
}
