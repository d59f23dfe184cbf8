package p2p

import (
	"encoding/json"

	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

func c15Comm() *Communication {
	c, err := NewCommunication("rendezvous", nil, 6668, "")
	verifrt.Assert(err == nil, "C15-setup")
	c.host = verifnet.NewHost("me")
	return c
}

func c15Frame(t messages.THORChainTSSMessageType, id string, payload []byte) []byte {
	b, err := json.Marshal(messages.WrappedMessage{MessageType: t, MsgID: id, Payload: payload})
	verifrt.Assert(err == nil, "C15-setup")
	return b
}

func c15Stream(p peer.ID, frame []byte) *verifnet.Stream {
	w := &verifnet.Stream{}
	WriteStreamWithBuffer(frame, w)
	return &verifnet.Stream{Peer: p, In: w.Out}
}

type c15Sub struct {
	t  messages.THORChainTSSMessageType
	id string
	ch chan *Message
	on bool
}

// C15: after any sequence of subscriptions and cancellations an inbound
// message reaches exactly the channel subscribed for its type and id.
// bound: 3 (quick) / 4 (thorough) subscribe/cancel operations and one inbound message; every message type 0..255, ids of one symbolic byte or empty, 1-byte payload
// outside: more operations; longer ids (see LongIDs)
func VerifH_C15_Routing() {
	n := 3
	if verifrt.Thorough() {
		n = 4
	}
	c := c15Comm()
	var subs []*c15Sub
	id := func() string { return verifrt.Str("id", verifrt.Choose("idlen", 2)) }
	for i := 0; i < n; i++ {
		t := messages.THORChainTSSMessageType(verifrt.Byte("type"))
		m := id()
		for _, s := range subs {
			if s.t == t && s.id == m {
				s.on = false
			}
		}
		if verifrt.Choose("op", 2) == 0 {
			s := &c15Sub{t, m, make(chan *Message, 2), true}
			subs = append(subs, s)
			c.SetSubscribe(t, m, s.ch)
		} else {
			c.CancelSubscribe(t, m)
		}
	}
	t := messages.THORChainTSSMessageType(verifrt.Byte("type"))
	m := id()
	frame := c15Frame(t, m, verifrt.Bytes("payload", 1))
	c.handleStream(c15Stream("sender", frame))
	delivered := 0
	want := 0
	for _, s := range subs {
		hit := s.on && s.t == t && s.id == m
		if !hit {
			verifrt.Assert(len(s.ch) == 0, "C15-not-delivered-elsewhere")
			continue
		}
		want++
		verifrt.Assert(len(s.ch) == 1, "C15-delivered-once")
		if len(s.ch) == 0 {
			continue
		}
		msg := <-s.ch
		delivered++
		verifrt.Assert(msg.PeerID == "sender", "C15-sender-unchanged")
		verifrt.Assert(string(msg.Payload) == string(frame), "C15-payload-unchanged")
	}
	if want == 1 {
		verifrt.Reach("delivered")
	} else {
		verifrt.Reach("no subscriber")
	}
}

// C15: session ids and messages of the usual lengths are told apart as a whole.
// bound: ids of 64 characters with one symbolic character at the beginning, in the middle or at the end, cut short by one character or longer by one; two subscriptions, one possibly cancelled; payloads of 0, 1 and 6000 bytes
func VerifH_C15_LongIDs() {
	at := verifnet.Places[verifrt.Choose("ids differ at", len(verifnet.Places))]
	id := func() string {
		switch verifrt.Choose("id", 3) {
		case 0:
			return verifnet.AlikeSession(at, verifrt.Str("char", 1))
		case 1:
			return verifnet.Session[:63]
		}
		return verifnet.Session + "0"
	}
	c := c15Comm()
	var subs []*c15Sub
	for i := 0; i < 2; i++ {
		s := &c15Sub{messages.TSSKeySignMsg, id(), make(chan *Message, 2), true}
		for _, o := range subs {
			o.on = o.id != s.id
		}
		subs = append(subs, s)
		c.SetSubscribe(s.t, s.id, s.ch)
	}
	if verifrt.Choose("cancel", 2) == 1 {
		m := id()
		c.CancelSubscribe(messages.TSSKeySignMsg, m)
		for _, o := range subs {
			o.on = o.on && o.id != m
		}
	}
	m := id()
	payload := make([]byte, []int{0, 1, 6000}[verifrt.Choose("size", 3)])
	for i := range payload {
		payload[i] = byte(i)
	}
	frame := c15Frame(messages.TSSKeySignMsg, m, payload)
	c.handleStream(c15Stream("sender", frame))
	for _, s := range subs {
		if !(s.on && s.id == m) {
			verifrt.Assert(len(s.ch) == 0, "C15-not-delivered-elsewhere")
			continue
		}
		verifrt.Reach("delivered")
		verifrt.Assert(len(s.ch) == 1, "C15-delivered-once")
		if len(s.ch) == 1 {
			msg := <-s.ch
			verifrt.Assert(msg.PeerID == "sender" && string(msg.Payload) == string(frame), "C15-payload-unchanged")
		}
	}
}

// C15: messages that cannot be decoded are dropped without any effect.
// bound: 0..6 bytes that are no JSON document, truncated frames included
func VerifH_C15_Undecodable() {
	c := c15Comm()
	var chs []chan *Message
	for t := 0; t < 7; t++ {
		for _, id := range []string{"", "a"} {
			ch := make(chan *Message, 2)
			chs = append(chs, ch)
			c.SetSubscribe(messages.THORChainTSSMessageType(t), id, ch)
		}
	}
	verifrt.RawIsMalformed()
	raw := verifrt.Bytes("raw", verifrt.Choose("len", 7))
	if !verifrt.Symbolic() {
		if json.Unmarshal(raw, &messages.WrappedMessage{}) == nil {
			verifrt.Assume(false)
		}
	}
	s := c15Stream("sender", raw)
	if cut := verifrt.Choose("cut", 3); cut < len(s.In) {
		s.In = s.In[:len(s.In)-cut]
	}
	c.handleStream(s)
	verifrt.Reach("handled")
	for _, ch := range chs {
		verifrt.Assert(len(ch) == 0, "C15-undecodable-is-dropped")
	}
}

// C15: deliveries, subscriptions and cancellations at the same time: the
// subscription that was never touched gets its message, a cancelled one that
// nobody delivers to any more gets nothing, and the tables stay consistent.
// bound: one delivery, one subscribe and one cancel running concurrently with every choice of same/different type and id; every interleaving with up to 3 (quick) / 4 (thorough) preemptions
func VerifH_C15_Concurrent() {
	c := c15Comm()
	types := []messages.THORChainTSSMessageType{messages.TSSKeyGenMsg, messages.TSSKeySignVerMsg}
	ids := []string{"a", "b"}
	stay := make(chan *Message, 2)
	gone := make(chan *Message, 2)
	c.SetSubscribe(types[0], "a", stay)
	gt := types[verifrt.Choose("gone-type", 2)]
	c.SetSubscribe(gt, "b", gone)
	nt := types[verifrt.Choose("new-type", 2)]
	nid := ids[verifrt.Choose("new-id", 2)] + "n"
	fresh := make(chan *Message, 2)
	frame := c15Frame(types[0], "a", []byte{1})
	s := c15Stream("sender", frame)
	pre := 3
	if verifrt.Thorough() {
		pre = 4
	}
	verifrt.Races()
	verifrt.Sched(pre)
	go c.handleStream(s)
	go c.SetSubscribe(nt, nid, fresh)
	go c.CancelSubscribe(gt, "b")
	verifrt.Quiesce()
	verifrt.NoSched()
	verifrt.Reach("done")
	verifrt.Assert(len(stay) == 1, "C15-delivered-once")
	verifrt.Assert(len(gone) == 0 && len(fresh) == 0, "C15-not-delivered-elsewhere")
	c.handleStream(c15Stream("sender", c15Frame(gt, "b", []byte{2})))
	verifrt.Assert(len(gone) == 0, "C15-nothing-after-cancel")
	c.handleStream(c15Stream("other", c15Frame(nt, nid, []byte{3})))
	verifrt.Assert(len(fresh) == 1, "C15-subscription-during-traffic-works")
	c.handleStream(c15Stream("other", frame))
	verifrt.Assert(len(stay) == 2, "C15-other-subscriptions-keep-working")
}
