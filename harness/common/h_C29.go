package common

import (
	"encoding/json"

	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

func c29Hash(w *messages.WireMessage) string {
	h, err := conversion.BytesToHashString(w.Message)
	verifrt.Assert(err == nil, "setup")
	return h
}

// c29Controls takes what the node has sent and returns the requests and answers for shares among it.
func c29Controls(s *verifSession) (to [][]peer.ID, what []messages.TssControl, payload [][]byte) {
	for _, b := range s.sent() {
		if b.WrappedMessage.MessageType != messages.TSSControlMsg {
			continue
		}
		verifrt.Assert(b.WrappedMessage.MsgID == verifMsgID, "C29-for-this-session")
		var c messages.TssControl
		verifrt.Assert(json.Unmarshal(b.WrappedMessage.Payload, &c) == nil, "C29-readable")
		to, what, payload = append(to, b.PeersID), append(what, c), append(payload, b.WrappedMessage.Payload)
	}
	return to, what, payload
}

// C29: whom a node asks for a share, when, and for which.
// bound: committees of four and five; the share of one member (symbolic content) arrives or not, before, between or after up to three reports of different other members, each of the hash of that share or of one of two others (a second version of the share, an unknown one); keygen or keysign; maps iterated in insertion order or in reverse
// outside: reports by the owner and by strangers, repeated reports (see C04); larger committees (see EndToEnd)
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C29_Request() {
	const owner = 1
	n := 4 + verifrt.Choose("committee", 2)
	sign := verifrt.Choose("keysign", 2) == 1
	typ, ver, _ := verifProtocol(sign)
	round := 8
	if sign {
		round = 1
	}
	s := verifNewSession(n, 0, "m")
	c := verifrt.Bytes("content", 2)
	verifrt.Assume(c[0] != c[1])
	var hs []string
	var ws []*messages.WireMessage
	for i := 0; i < 2; i++ {
		ws = append(ws, s.share(owner, round, true, s.entry(owner, round, true, "m", c[i:i+1])))
		hs = append(hs, c29Hash(ws[i]))
	}
	hs = append(hs, "another")
	if verifrt.Choose("map order", 2) == 1 {
		verifrt.MapReverse()
	}
	th := c04Threshold(n)
	vote := map[int]int{}
	have := false
	arrives := verifrt.Choose("arrives", n) // at the end of the list: never
	for i := 0; i < n-1; i++ {
		if i == arrives {
			vote[0] = 0
			have = true
			s.deliver(typ, s.peers[owner], verifJSON(ws[0]))
		} else {
			m := i + 2
			if i > arrives {
				m--
			}
			if m >= n {
				break
			}
			v := verifrt.Choose("hash", 3)
			vote[m] = v
			s.deliver(ver, s.peers[m], verifJSON(&messages.BroadcastConfirmMessage{Key: ws[0].GetCacheKey(), Hash: hs[v]}))
		}
		var freq [3]int
		max := 0
		for _, v := range vote {
			if freq[v]++; freq[v] > max {
				max = freq[v]
			}
		}
		if s.handed() > 0 {
			verifrt.Reach("applied")
			to, _, _ := c29Controls(s)
			verifrt.Assert(len(to) == 0, "C29-nothing-is-asked-for-a-share-that-is-applied")
			return
		}
		to, what, _ := c29Controls(s)
		verifrt.Assert(len(to) <= 1, "C29-asks-once")
		need := max >= th-1
		sure := need
		if have {
			// a share that is here is doubted once enough members reported
			need = need && len(vote) >= th
			sure = need && freq[0] < max
		}
		if sure {
			verifrt.Reach("asked")
			verifrt.Assert(len(to) == 1, "C29-a-share-that-is-missing-is-asked-for")
		}
		if len(to) == 0 {
			continue
		}
		verifrt.Assert(need, "C29-asked-only-when-enough-members-agree")
		asked := -1
		for v := range hs {
			if what[0].ReqHash == hs[v] {
				asked = v
			}
		}
		verifrt.Assert(asked >= 0 && freq[asked] == max && !(have && asked == 0), "C29-asks-for-the-most-reported-version")
		verifrt.Assert(what[0].ReqKey == ws[0].GetCacheKey() && what[0].RequestType == typ && what[0].Msg == nil, "C29-asks-for-exactly-that-share")
		var want []peer.ID
		for m, v := range vote {
			if v == asked && m != 0 {
				want = append(want, s.peers[m])
			}
		}
		var others []peer.ID
		for _, p := range to[0] {
			if p.String() != s.t.GetLocalPeerID() {
				others = append(others, p)
			}
		}
		verifrt.Assert(c11Same(others, want), "C29-asks-exactly-the-members-that-reported-it")
		if have {
			return // from here on the share that was here is no longer
		}
	}
}

// C29: what a member that is asked for a share answers, and to whom.
// bound: committee of four, keygen or keysign; this node applied the share of one or both of two members in the first broadcast round, received it without enough reports, or never got it; another member asks for it, for that of another member, of another round, or with an empty key; once or twice
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
func VerifH_C29_Answer() {
	sign := verifrt.Choose("keysign", 2) == 1
	typ, ver, _ := verifProtocol(sign)
	round, later := 8, 11
	if sign {
		round, later = 1, 3
	}
	s := verifNewSession(4, 0, "m")
	var ws []*messages.WireMessage
	applied := make([]bool, 4)
	for m := 1; m < 3; m++ {
		w := s.share(m, round, true, s.entry(m, round, true, "m", []byte{byte(m), verifrt.Byte("content")}))
		ws = append(ws, w)
		state := 0
		if m == 1 {
			state = verifrt.Choose("state", 3)
		} else if verifrt.Choose("applied", 2) == 1 {
			state = 2
		}
		if state > 0 {
			s.deliver(typ, s.peers[m], verifJSON(w))
		}
		if state > 1 {
			s.confirm(ver, m, w)
			applied[m] = true
		}
	}
	s.sent()
	for times := 1 + verifrt.Choose("again", 2); times > 0; times-- {
		m := 1 + verifrt.Choose("asked for", 3)
		key := []string{"", "", "", "nobody-" + messages.KEYSIGN1b}[m]
		hash := "h"
		if m < 3 {
			key = ws[m-1].GetCacheKey()
			hash = c29Hash(ws[m-1])
			switch verifrt.Choose("key", 3) {
			case 1:
				key = s.ids[m].Id + "-" + verifRounds[later].RoundMsg
				m = 3
			case 2:
				key = ""
				m = 3
			}
		}
		from := 1 + verifrt.Choose("by", 3)
		err := s.deliver(messages.TSSControlMsg, s.peers[from], verifJSON(&messages.TssControl{ReqHash: hash, ReqKey: key, RequestType: typ}))
		to, what, _ := c29Controls(s)
		if !applied[m] {
			verifrt.Reach("unknown")
			verifrt.Assert(len(to) == 0, "C29-a-share-that-is-not-here-is-not-answered")
			continue
		}
		verifrt.Reach("answered")
		verifrt.Assert(err == nil && len(to) == 1, "C29-answered-once")
		verifrt.Assert(len(to[0]) == 1 && to[0][0] == s.peers[from], "C29-answered-to-the-member-that-asked")
		a := what[0]
		verifrt.Assert(a.ReqHash == hash && a.ReqKey == key && a.RequestType == typ && a.Msg != nil, "C29-the-answer-names-the-request")
		w := ws[m-1]
		verifrt.Assert(string(a.Msg.Message) == string(w.Message) && string(a.Msg.Sig) == string(w.Sig) && a.Msg.RoundInfo == w.RoundInfo && a.Msg.Routing != nil && a.Msg.Routing.IsBroadcast && a.Msg.Routing.From.Id == s.ids[m].Id, "C29-the-answer-is-the-share-as-it-was-signed")
	}
	verifrt.Assert(s.handed() == len(s.inst["m"].got) && s.handed() <= 2, "C29-asking-changes-nothing")
}

// C29: a share that a member missed reaches it through the others.
// bound: committees of 3 to 7 and 10; any broadcast round of a keygen or keysign (aborted rounds too), 1 or 3 instances; the member got nothing or another version of the share from its owner, before or after the reports of the others; it asks, one of those asked (the first or the last) answers; the answer is repeated, or comes although nothing was asked for
// outside: other committee sizes
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C29_EndToEnd() {
	const owner = 1
	n := []int{3, 4, 5, 6, 7, 10}[verifrt.Choose("committee", 6)]
	sign := verifrt.Choose("keysign", 2) == 1
	typ, ver, rounds := verifProtocol(sign)
	if sign {
		rounds = append(rounds, 12, 13)
	}
	round := rounds[verifrt.Choose("round", len(rounds))]
	verifrt.Assume(!verifUnicast(round))
	insts := []string{"7:0"}
	if sign && n < 7 && verifrt.Choose("instances", 2) == 1 {
		insts = []string{"7:0", "7:1", "8:2"}
	}
	x := verifNewSession(n, 0, insts...)
	var entries, other []BulkWireMsg
	c := verifrt.Bytes("content", 2)
	verifrt.Assume(c[0] != c[1])
	for i, in := range insts {
		entries = append(entries, x.entry(owner, round, true, in, []byte{byte(i + 1), c[0]}))
		other = append(other, x.entry(owner, round, true, in, []byte{byte(i + 1), c[1]}))
	}
	w := x.share(owner, round, true, entries...)
	// the share is applied by all others
	got := verifrt.Choose("got", 3) // nothing, another version before or after the reports
	// with three members, or with four at the first report, each version has one report: nobody can tell which one is right
	verifrt.Assume(got == 0 || n > 4 || n == 4 && got == 2)
	if got == 1 {
		x.deliver(typ, x.peers[owner], verifJSON(x.share(owner, round, true, other...)))
	}
	x.sent()
	x.confirm(ver, owner, w)
	to, _, payload := c29Controls(x)
	if got == 2 {
		x.deliver(typ, x.peers[owner], verifJSON(x.share(owner, round, true, other...)))
		t2, _, p2 := c29Controls(x)
		to, payload = append(to, t2...), append(payload, p2...)
	}
	verifrt.Assert(x.handed() == 0, "C29-not-applied-before-the-answer")
	verifrt.Assert(len(to) > 0, "C29-a-share-that-is-missing-is-asked-for")
	last := to[len(to)-1]
	verifrt.Assert(len(last) > 0, "C29-asks-exactly-the-members-that-reported-it")
	// one of the members that were asked
	at := 0
	if verifrt.Choose("asked", 2) == 1 {
		at = len(last) - 1
	}
	y := -1
	for m := range x.peers {
		if x.peers[m] == last[at] {
			y = m
		}
	}
	verifrt.Assert(y > 1, "C29-asks-exactly-the-members-that-reported-it")
	a := verifNewSession(n, y, insts...)
	a.deliver(typ, a.peers[owner], verifJSON(w))
	a.confirm(ver, owner, w)
	verifrt.Assert(a.handed() == len(insts), "setup")
	a.sent()
	a.deliver(messages.TSSControlMsg, a.peers[0], payload[len(payload)-1])
	to, _, payload = c29Controls(a)
	verifrt.Assert(len(to) == 1 && len(to[0]) == 1 && to[0][0] == a.peers[0], "C29-answered-to-the-member-that-asked")
	x.sent()
	x.deliver(messages.TSSControlMsg, x.peers[y], payload[0])
	verifrt.Reach("answered")
	verifrt.Assert(x.handed() == len(insts), "C29-the-answer-is-applied")
	for i, in := range insts {
		h := x.inst[in].got[0]
		verifrt.Assert(string(h.wire) == string(entries[i].WiredBulkMsgs) && h.from.Id == x.ids[owner].Id && h.bcast, "C29-the-answer-is-applied")
		verifrt.Assert(x.accepted(round, in, owner) == 1, "C29-the-answer-is-recorded")
	}
	verifrt.Assert(len(x.sent()) == 0, "C29-an-answer-is-not-announced-again")
	x.deliver(messages.TSSControlMsg, x.peers[y], payload[0])
	verifrt.Assert(x.handed() == len(insts), "C29-an-answer-is-used-once")
	verifrt.Assert(len(x.t.TryGetAllLocalCached()) == 0, "C29-an-answer-is-used-once")
	// another node that did not ask for it
	z := verifNewSession(n, n-1, insts...)
	if y == n-1 {
		return
	}
	z.deliver(messages.TSSControlMsg, z.peers[y], payload[0])
	verifrt.Assert(z.handed() == 0 && len(z.sent()) == 0 && z.t.TryGetLocalCacheItem(w.GetCacheKey()) == nil, "C29-an-answer-nobody-asked-for-has-no-effect")
}

// C29: answers that are not what was asked for, and answers to several requests.
// bound: committees of four and five, keygen or keysign; the shares (symbolic content) of one or two members are missing and reported by all others, and asked for; the first answer is the right one, or the share with another content, another version signed by its owner, a share signed by the answering member or for another session, naming another owner, another round or no sender, a unicast share, a share nobody reported, or names another or no hash; then the right answers arrive, in either order
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C29_Untrusted() {
	n := 4 + verifrt.Choose("committee", 2)
	sign := verifrt.Choose("keysign", 2) == 1
	typ, ver, _ := verifProtocol(sign)
	round, uni, next := 8, 9, 10
	if sign {
		round, uni, next = 1, 2, 3
	}
	s := verifNewSession(n, 0, "m")
	c := verifrt.Bytes("content", 3)
	verifrt.Assume(verifrt.And(c[0] != c[1], c[0] != c[2], c[1] != c[2]))
	owners := 1 + verifrt.Choose("missing", 2)
	var ws []*messages.WireMessage
	for o := 1; o <= owners; o++ {
		w := s.share(o, round, true, s.entry(o, round, true, "m", []byte{byte(o), c[0]}))
		ws = append(ws, w)
		s.confirm(ver, o, w)
	}
	to, what, _ := c29Controls(s)
	verifrt.Assert(len(to) >= owners, "C29-a-share-that-is-missing-is-asked-for")
	y := n - 1 // answers
	wrong := *ws[0]
	req := what[0].ReqHash
	kind := verifrt.Choose("answer", 12)
	switch kind {
	case 1:
		wrong.Message = s.share(1, round, true, s.entry(1, round, true, "m", []byte{1, c[1]})).Message
	case 2:
		wrong = *s.share(1, round, true, s.entry(1, round, true, "m", []byte{1, c[1]}))
	case 3:
		wrong.Sig = verifSign(s.priv[y], wrong.Message, verifMsgID)
	case 4:
		wrong.Sig = verifSign(s.priv[1], wrong.Message, verifMsgID+"a")
	case 5:
		r := *wrong.Routing
		r.From = s.ids[y]
		wrong.Routing = &r
	case 6:
		wrong = *s.share(1, next, true, s.entry(1, next, true, "m", []byte{1, c[1]}))
	case 7:
		wrong.Routing = nil
	case 8:
		wrong = *s.share(y, round, true, s.entry(y, round, true, "m", []byte{byte(y), c[2]}))
	case 9:
		req = "another"
	case 10:
		req = ""
	case 11:
		wrong = *s.share(y, uni, false, s.entry(1, uni, false, "m", []byte{1, c[2]}))
	}
	if kind > 0 {
		s.deliver(messages.TSSControlMsg, s.peers[y], verifJSON(&messages.TssControl{ReqHash: req, ReqKey: ws[0].GetCacheKey(), RequestType: typ, Msg: &wrong}))
		verifrt.Reach("wrong")
		verifrt.Assert(s.handed() == 0, "C29-only-the-share-that-was-asked-for-is-applied")
		verifrt.Assert(s.t.GetBlameMgr().GetRoundMgr().Get(ws[0].GetCacheKey()) == nil, "C29-only-the-share-that-was-asked-for-is-applied")
		if kind < 9 {
			return
		}
		if kind == 11 {
			return
		}
	}
	s.sent()
	down := verifrt.Choose("order", 2)
	for i := range ws {
		if down == 1 {
			i = len(ws) - 1 - i
		}
		s.deliver(messages.TSSControlMsg, s.peers[y], verifJSON(&messages.TssControl{ReqHash: c29Hash(ws[i]), ReqKey: ws[i].GetCacheKey(), RequestType: typ, Msg: ws[i]}))
	}
	verifrt.Reach("right")
	verifrt.Assert(s.handed() == owners, "C29-every-answer-is-applied")
	for o := 1; o <= owners; o++ {
		verifrt.Assert(s.accepted(round, "m", o) == 1, "C29-every-answer-is-applied")
	}
}
