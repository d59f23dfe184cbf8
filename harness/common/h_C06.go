package common

import (
	"errors"
	"strings"
	"sync"

	btss "github.com/binance-chain/tss-lib/tss"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

func c06Payload(s *verifSession) []byte {
	docs := []string{
		"", "null", "{}", "[]", "7", `"x"`, "{", `{"a":1}`,
		// shares
		`{"routing":null,"round_info":"r","message":null,"signature":null}`,
		`{"routing":{},"round_info":"r"}`,
		`{"routing":{"From":null},"message":"AA=="}`,
		`{"routing":{"From":{}},"message":"AA==","signature":"AA=="}`,
		`{"routing":{"From":{"id":"zz"}},"message":"AA==","signature":"AA=="}`,
		`{"routing":{"From":{"id":"1"},"To":[null,{}],"IsBroadcast":false},"message":"AA==","signature":"AA=="}`,
		`{"routing":{"From":{"id":"1"},"IsBroadcast":true},"message":null,"signature":null}`,
		`{"routing":{"From":{"id":1}}}`,
		`{"routing":{"From":{"id":"1"}},"message":"*"}`,
		// confirmations
		`{"P2PID":null,"key":null,"hash":null}`,
		`{"P2PID":"x","key":"","hash":""}`,
		`{"key":"1-SignRound1Message2","hash":"x"}`,
		`{"key":7}`,
		// control messages
		`{"reqest_hash":"h","request_key":"k","request_type":1,"message_body":null}`,
		`{"reqest_hash":"h","request_key":"k","request_type":1,"message_body":{}}`,
		`{"reqest_hash":"h","request_key":"k","request_type":1,"message_body":{"routing":{"From":{}}}}`,
		`{"reqest_hash":"h","request_key":"k","request_type":99,"message_body":{"routing":{"From":{"id":"1"}}}}`,
		`{"reqest_hash":"nope","message_body":{}}`,
		`{"request_type":"x"}`,
		// completion
		`{"task_done":true}`, `{"task_done":false}`, `{"task_done":"x"}`,
	}
	return []byte(docs[verifrt.Choose("document", len(docs))])
}

// c06Settled is checked after every message.
func c06Settled(s *verifSession) {
	verifrt.Quiesce()
	s.sent()
	verifrt.Assert(verifrt.Goroutines() == 0, "C06-no-worker-left-behind")
}

// c06Alive checks that the session still takes a good share.
func c06Alive(s *verifSession) {
	before := s.handed()
	s.deliver(messages.TSSKeySignMsg, s.peers[2], verifJSON(s.share(2, 3, true, s.entry(2, 3, true, "m", []byte{1}))))
	verifrt.Assert(s.handed() == before+1, "C06-session-still-works")
	c06Settled(s)
}

// C06: documents that are no proper session message are refused.
// bound: any message type (symbolic), 30 malformed or incomplete documents, from a member, a stranger or an undecodable peer id; one or two of them in a row, with and without an outstanding request; then a good share
// outside: documents of other shapes
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 240s
func VerifH_C06_Documents() {
	s := verifNewSession(3, 0, "m")
	if verifrt.Choose("request outstanding", 2) == 1 {
		s.t.GetBlameMgr().GetShareMgr().Set("h")
	}
	n := 1
	if verifrt.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		from := []string{s.peers[1].String(), s.other.String(), "x", ""}[verifrt.Choose("from", 4)]
		typ := messages.THORChainTSSMessageType(verifrt.Byte("type"))
		s.t.ProcessOneMessage(&messages.WrappedMessage{MessageType: typ, MsgID: verifMsgID, Payload: c06Payload(s)}, from)
		c06Settled(s)
	}
	verifrt.Assert(s.handed() == 0, "C06-nothing-applied-from-a-malformed-message")
	verifrt.Assert(s.t.ProcessOneMessage(nil, "x") != nil, "C06-missing-message-is-an-error")
	verifrt.Reach("done")
	c06Alive(s)
}

// C06: correctly signed batches with unusable content are refused as a whole by an error, without leaving workers behind.
// bound: batch of 0..3 shares of a member (symbolic content bytes), each good or with missing routing, missing sender, sender without an id, unknown sender, unknown instance, undecodable or empty or unknown wire bytes, a symbolic wire byte; unicast or broadcast; or a batch document that is no list
// outside: larger batches
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 240s
func VerifH_C06_Batches() {
	s := verifNewSession(3, 0, "m")
	bcast := verifrt.Choose("broadcast", 2) == 1
	r := &btss.MessageRouting{From: s.ids[1], IsBroadcast: bcast}
	w := &messages.WireMessage{Routing: r, RoundInfo: messages.KEYSIGN1b}
	bad := false
	n := verifrt.Choose("shares", 4)
	if n == 3 && !verifrt.Thorough() {
		n = 4
	}
	if n == 4 {
		docs := []string{"", "null", "{}", "7", `[null]`, `[{}]`, `[{"Routing":{"From":{}}}]`, `[{"Routing":{"From":{"id":"1"}}}]`, `[{"WiredBulkMsgs":7}]`,
			`[{"MsgIdentifier":"m","Routing":{"From":null}}]`, `[{"MsgIdentifier":"m","WiredBulkMsgs":"AA==","Routing":{"From":{}}}]`}
		w.Message = []byte(docs[verifrt.Choose("document", len(docs))])
		bad = string(w.Message) != "null"
	} else {
		var batch []BulkWireMsg
		for i := 0; i < n; i++ {
			e := s.entry(1, 1, bcast, "m", verifrt.Bytes("content", 1))
			kinds := 10
			if i == 2 {
				kinds = 3
			}
			k := verifrt.Choose("kind", kinds)
			switch k {
			case 1:
				e.Routing = nil
			case 2:
				e.Routing.From = nil
			case 3:
				e.Routing.From = &btss.PartyID{}
			case 4:
				e.Routing.From = btss.NewPartyID("zz", "", s.ids[1].KeyInt())
			case 5:
				e.MsgIdentifier = "other"
			case 6:
				e.WiredBulkMsgs = []byte{0xff}
			case 7:
				e.WiredBulkMsgs = nil
			case 8:
				e.WiredBulkMsgs = []byte("\n\x10" + strings.Repeat("x", 16))
			case 9:
				e.WiredBulkMsgs = append([]byte(nil), e.WiredBulkMsgs[:len(e.WiredBulkMsgs)-1]...)
			}
			bad = bad || k != 0
			batch = append(batch, e)
		}
		w.Message = verifJSON(batch)
	}
	w.Sig = verifSign(s.priv[1], w.Message, verifMsgID)
	err := s.deliver(messages.TSSKeySignMsg, s.peers[1], verifJSON(w))
	c06Settled(s)
	if bad {
		verifrt.Reach("refused")
		verifrt.Assert(err != nil, "C06-unusable-batch-is-refused-with-an-error")
	} else {
		verifrt.Reach("used")
	}
	c06Alive(s)
}

// C06: a malformed message on the session's channel does not stop the session.
// bound: one to two messages out of: undecodable bytes, a document without payload, a share with an empty sender, a completion notice; then a good share; then the end of the session
// outside: other orders
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
func VerifH_C06_Loop() {
	s := verifNewSession(3, 0, "m")
	s.t.TssMsg = make(chan *p2p.Message, 4)
	finish := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go s.t.ProcessInboundMessages(finish, &wg)
	for i := 0; i < 2; i++ {
		var b []byte
		switch verifrt.Choose("message", 5) {
		case 0:
			b = verifrt.Bytes("raw", 2)
			verifrt.Assume(b[0] >= 0x80)
			verifrt.RawIsMalformed()
		case 1:
			b = []byte("null")
		case 2:
			b = verifJSON(&messages.WrappedMessage{MessageType: messages.THORChainTSSMessageType(verifrt.Byte("type"))})
		case 3:
			b = verifJSON(&messages.WrappedMessage{MessageType: messages.TSSKeySignMsg, Payload: []byte(`{"routing":{"From":{}}}`)})
		default:
			b = verifJSON(&messages.WrappedMessage{MessageType: messages.TSSTaskDone, Payload: []byte(`{"task_done":true}`)})
		}
		s.t.TssMsg <- &p2p.Message{PeerID: s.peers[1], Payload: b}
	}
	verifrt.Quiesce()
	s.t.TssMsg <- &p2p.Message{PeerID: s.peers[2], Payload: verifJSON(&messages.WrappedMessage{MessageType: messages.TSSKeySignMsg, Payload: verifJSON(s.share(2, 3, true, s.entry(2, 3, true, "m", []byte{1})))})}
	verifrt.Quiesce()
	verifrt.Assert(s.handed() == 1, "C06-session-still-works")
	if verifrt.Choose("end", 2) == 1 {
		close(finish)
	} else {
		close(s.t.TssMsg)
	}
	wg.Wait()
	verifrt.Assert(verifrt.Goroutines() == 0, "C06-no-worker-left-behind")
	verifrt.Reach("done")
}

// C06: failing shares and shares of the members that were named for them do not stop the session.
// bound: committee of three, one instance; four shares by either other member, each of its own round, the instance accepting it or failing and naming none, either or both of the others, or a party that is not in the session; then a share of this round by each member
// outside: failures of several instances at once (see C07)
// stub: tss-lib parties record what they are handed and fail on request; signatures and SHA-256 are ideal
// limit: 240s
func VerifH_C06_Failures() {
	s := verifNewSession(3, 0, "m")
	culprit := map[int]bool{}
	who := -1
	s.inst["m"].fail = func(h verifHand) *btss.Error {
		if who < 0 {
			return nil
		}
		var l []*btss.PartyID
		for m := 1; m <= 2; m++ {
			if who < 4 && who&m != 0 {
				l = append(l, s.ids[m])
			}
		}
		if who == 4 {
			l = append(l, btss.NewPartyID("99", "", s.ids[1].KeyInt()))
		}
		return btss.NewError(errors.New("bad share"), "keysign", 1, s.ids[0], l...)
	}
	k := 3
	if verifrt.Thorough() {
		k = 4
	}
	failing := func(m, round int, w int) {
		who = w
		before := s.handed()
		err := s.deliver(messages.TSSKeySignMsg, s.peers[m], verifJSON(s.share(m, round, round != 0, s.entry(m, round, round != 0, "m", []byte{byte(round)}))))
		c06Settled(s)
		if culprit[m] {
			verifrt.Reach("refused")
			verifrt.Assert(err != nil && s.handed() == before, "C06-share-of-a-culprit-is-an-error")
			return
		}
		verifrt.Assert(s.handed() == before+1, "C06-session-still-works")
		for c := 1; c <= 2; c++ {
			if who > 0 && who < 4 && who&c != 0 {
				culprit[c] = true
			}
		}
	}
	for i := 0; i < k; i++ {
		failing(1+verifrt.Choose("from", 2), i, verifrt.Choose("outcome", 6)-1)
	}
	for m := 1; m <= 2; m++ {
		failing(m, 4, -1)
	}
	verifrt.Reach("done")
}
