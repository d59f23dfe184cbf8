package p2p

import (
	"encoding/json"
	"errors"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

func c27Comm() (*Communication, *verifnet.Host) {
	c, err := NewCommunication("rendezvous", nil, 6668, "")
	verifrt.Assert(err == nil, "C27-setup")
	h := verifnet.NewHost("me")
	h.Hang = map[peer.ID]bool{}
	c.host = h
	c.wg.Add(1)
	go c.ProcessBroadcast()
	return c, h
}

// c27Frames are the whole frames written to a stream.
func c27Frames(s *verifnet.Stream) (l []messages.WrappedMessage, ok bool) {
	in := &verifnet.Stream{In: s.Out}
	for len(in.In) > 0 {
		one := &verifnet.Stream{In: in.In, ReadSize: func(n int) int {
			return n
		}}
		b, err := ReadStreamWithBuffer(one)
		if err != nil {
			return l, false
		}
		in.In = in.In[LengthHeader+len(b):]
		var m messages.WrappedMessage
		if json.Unmarshal(b, &m) != nil {
			return l, false
		}
		l = append(l, m)
	}
	return l, true
}

// C27: every addressee but this node itself gets each message once, unchanged, whatever happens to the others.
// bound: 1..2 messages of any type with an id with one symbolic byte (at the beginning, in the middle or at the end) and symbolic payload, each for any set of 3 peers and this node; one of the peers fine, unreachable, never answering, or failing the write
// outside: more peers and messages; messages above the size limit of a frame
func VerifH_C27_Sent() {
	c, h := c27Comm()
	all := []peer.ID{"p1", "p2", "p3", "me"}
	bad := peer.ID("p2")
	kind := verifrt.Choose("p2 is", 4)
	switch kind {
	case 1:
		h.Down[bad] = true
	case 2:
		h.Hang[bad] = true
	case 3:
		h.Open = nil
		h.Opened = func(s *verifnet.Stream) {
			if s.Peer == bad {
				s.WriteFn = func(p []byte) (int, error) { return 0, errors.New("stream reset") }
			}
		}
	}
	n := 1 + verifrt.Choose("messages", 2)
	at := verifnet.Places[verifrt.Choose("ids differ at", len(verifnet.Places))]
	var sent []messages.WrappedMessage
	want := map[peer.ID][]int{}
	for i := 0; i < n; i++ {
		// the first byte tells the messages apart
		m := messages.WrappedMessage{MessageType: messages.THORChainTSSMessageType(verifrt.Byte("type")), MsgID: verifnet.AlikeSession(at, verifrt.Str("id", 1)), Payload: append([]byte{byte(i)}, verifrt.Bytes("payload", 1)...)}
		sent = append(sent, m)
		var to []peer.ID
		for j, p := range all {
			if i > 0 && j == 2 {
				continue // two peers and this node are enough for a second message
			}
			if verifrt.Choose("to", 2) == 1 {
				to = append(to, p)
				if p != "me" && !(p == bad && kind != 0) {
					want[p] = append(want[p], i)
				}
			}
		}
		c.BroadcastMsgChan <- &messages.BroadcastMsgChan{WrappedMessage: m, PeersID: to}
	}
	verifrt.Quiesce()
	verifrt.Reach("sent")
	got := map[peer.ID][]int{}
	for _, s := range h.Streams {
		verifrt.Assert(s.Proto == TSSProtocolID, "C27-sent-on-the-tss-protocol")
		verifrt.Assert(s.Peer != "me", "C27-not-sent-to-itself")
		l, ok := c27Frames(s)
		verifrt.Assert(ok && len(l) <= 1 && (len(l) == 1 || s.Peer == bad && kind == 3), "C27-one-whole-frame-per-stream")
		for _, m := range l {
			verifrt.Assert(len(m.Payload) == 2 && int(m.Payload[0]) < n, "C27-sent-unchanged")
			x := sent[m.Payload[0]]
			verifrt.Assert(m.MessageType == x.MessageType && m.MsgID == x.MsgID && m.Payload[1] == x.Payload[1], "C27-sent-unchanged")
			got[s.Peer] = append(got[s.Peer], int(m.Payload[0]))
		}
	}
	for _, p := range all {
		verifrt.Assert(len(got[p]) == len(want[p]), "C27-sent-once-to-every-addressee")
		for _, i := range want[p] {
			times := 0
			for _, j := range got[p] {
				if i == j {
					times++
				}
			}
			verifrt.Assert(times == 1, "C27-sent-once-to-every-addressee")
		}
	}
	// the streams are released with their session and with no other
	for i, m := range sent {
		c.ReleaseStream(m.MsgID)
		for _, s := range h.Streams {
			l, _ := c27Frames(s)
			if i == 0 && len(l) == 1 && l[0].Payload[0] == 1 && sent[1].MsgID != m.MsgID {
				verifrt.Assert(s.Resets == 0, "C27-not-released-with-another-session")
			}
		}
	}
	for _, s := range h.Streams {
		verifrt.Assert(s.Resets == 1, "C27-streams-released-with-the-session")
	}
	verifrt.Assert(c.Stop() == nil, "C27-stops")
	verifrt.Assert(verifrt.Goroutines() == 0, "C27-nothing-left-running")
}

// C27: stopping waits for the messages under way, and nothing is sent afterwards.
// bound: one message for two peers, one of which answers late or never, stopped while it is under way; one more message afterwards; every interleaving with up to one (thorough: two) preemptions
func VerifH_C27_Stop() {
	c, h := c27Comm()
	late := verifrt.Bool("late")
	h.Open = func(p peer.ID, _ protocol.ID) (*verifnet.Stream, error) {
		if p == "p1" && late {
			time.Sleep(time.Second)
		}
		return &verifnet.Stream{Peer: p, Proto: TSSProtocolID}, nil
	}
	h.Hang["p2"] = verifrt.Bool("p2 hangs")
	m := messages.WrappedMessage{MessageType: messages.TSSKeyGenMsg, MsgID: "a", Payload: verifrt.Bytes("payload", 1)}
	c.BroadcastMsgChan <- &messages.BroadcastMsgChan{WrappedMessage: m, PeersID: []peer.ID{"p1", "p2"}}
	verifrt.Quiesce()
	pre := 1
	if verifrt.Thorough() {
		pre = 2
	}
	verifrt.Sched(pre)
	stopped := make(chan error, 1)
	go func() { stopped <- c.Stop() }()
	verifrt.Assert(<-stopped == nil, "C27-stops")
	verifrt.NoSched()
	verifrt.Reach("stopped")
	n := 0
	for _, s := range h.Streams {
		if len(s.Out) > 0 {
			n++
		}
	}
	if h.Hang["p2"] {
		verifrt.Assert(n == 1, "C27-stopping-waits-for-messages-under-way")
	} else {
		verifrt.Assert(n == 2, "C27-stopping-waits-for-messages-under-way")
	}
	c.BroadcastMsgChan <- &messages.BroadcastMsgChan{WrappedMessage: m, PeersID: []peer.ID{"p1"}}
	verifrt.Quiesce()
	verifrt.Advance(20000)
	verifrt.Assert(verifrt.Goroutines() == 0, "C27-nothing-left-running")
}

// C27: many addressees, many messages, large payloads.
// bound: 13 peers and one message of 6000 bytes, or 6 peers and 12 messages with payloads of 0, 1 or 6000 bytes; any number of the peers (the first or the last in the list) never answer or cannot be reached
func VerifH_C27_Many() {
	c, h := c27Comm()
	k := []int{1, 12}[verifrt.Choose("messages", 2)]
	n := 13
	if k > 1 {
		n = 6
	}
	bad := verifrt.Choose("bad", n+1)
	last := verifrt.Choose("last", 2) == 1
	hang := verifrt.Choose("hang", 2) == 1
	var to []peer.ID
	isBad := map[peer.ID]bool{}
	for i := 0; i < n; i++ {
		p := verifnet.ManyPeer(i)
		to = append(to, p)
		if i < bad && !last || n-1-i < bad && last {
			isBad[p] = true
			if hang {
				h.Hang[p] = true
			} else {
				h.Down[p] = true
			}
		}
	}
	for i := 0; i < k; i++ {
		payload := make([]byte, []int{0, 1, 6000}[i%3])
		if k == 1 {
			payload = make([]byte, 6000)
		}
		for j := range payload {
			payload[j] = byte(i + j)
		}
		c.BroadcastMsgChan <- &messages.BroadcastMsgChan{WrappedMessage: messages.WrappedMessage{MessageType: messages.THORChainTSSMessageType(i), MsgID: verifnet.Session, Payload: payload}, PeersID: to}
	}
	verifrt.Quiesce()
	verifrt.Reach("sent")
	got := map[peer.ID]map[int]int{}
	for _, p := range to {
		got[p] = map[int]int{}
	}
	for _, s := range h.Streams {
		l, ok := c27Frames(s)
		verifrt.Assert(ok && len(l) == 1, "C27-one-whole-frame-per-stream")
		for _, m := range l {
			i := int(m.MessageType)
			size := []int{0, 1, 6000}[i%3]
			if k == 1 {
				size = 6000
			}
			verifrt.Assert(m.MsgID == verifnet.Session && i < k && len(m.Payload) == size, "C27-sent-unchanged")
			for j := 0; j < len(m.Payload); j += 997 {
				verifrt.Assert(m.Payload[j] == byte(i+j), "C27-sent-unchanged")
			}
			got[s.Peer][i]++
		}
	}
	for _, p := range to {
		for i := 0; i < k; i++ {
			verifrt.Assert(got[p][i] == 1 || isBad[p] && got[p][i] == 0, "C27-sent-once-to-every-addressee")
		}
	}
	verifrt.Assert(c.Stop() == nil, "C27-stops")
	verifrt.Assert(verifrt.Goroutines() == 0, "C27-nothing-left-running")
}
