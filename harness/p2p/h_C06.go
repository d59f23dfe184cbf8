package p2p

import (
	"encoding/json"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C06: messages that arrive before, while and after a session ends leave no goroutine behind, whether anybody reads them or not.
// bound: one session subscribed for two message types on one channel with room for 0 to 2 messages, and another session; 3 messages of either type for the session, each arriving before or after its subscriptions are cancelled; 0 to 2 of them are read while the session lasts
// outside: more messages; the session's own workers (see the other harnesses)
func VerifH_C06_SessionOver() {
	c, err := NewCommunication("rendezvous", nil, 6668, "")
	verifrt.Assert(err == nil, "setup")
	c.host = verifnet.NewHost("me")
	types := []messages.THORChainTSSMessageType{messages.TSSKeySignMsg, messages.TSSControlMsg}
	room := verifrt.Choose("room", 3)
	ch := make(chan *Message, room)
	for _, t := range types {
		c.SetSubscribe(t, "a", ch)
	}
	other := make(chan *Message, 1)
	c.SetSubscribe(types[0], "b", other)
	n := 3
	late := verifrt.Choose("late", n+1)
	send := func(i int) {
		t := types[verifrt.Choose("type", 2)]
		go c.handleStream(c06Stream("sender", t, "a", byte(i)))
	}
	for i := 0; i < n-late; i++ {
		send(i)
	}
	verifrt.Quiesce()
	read := verifrt.Choose("read", 3)
	for i := 0; i < read; i++ {
		verifrt.Quiesce()
		select {
		case m := <-ch:
			verifrt.Assert(m.PeerID == "sender", "C06-message-as-sent")
		default:
		}
	}
	verifrt.Quiesce()
	if n-late > room+read {
		verifrt.Reach("waiting when the session ends")
		verifrt.Assert(verifrt.Goroutines() == n-late-room-read, "C06-message-waits-for-its-session")
	}
	for _, t := range types {
		c.CancelSubscribe(t, "a")
	}
	for i := n - late; i < n; i++ {
		send(i)
	}
	verifrt.Quiesce()
	verifrt.Reach("over")
	verifrt.Assert(verifrt.Goroutines() == 0, "C06-no-goroutine-left")
	c.handleStream(c06Stream("sender", types[0], "b", 9))
	verifrt.Assert(len(other) == 1, "C06-other-sessions-go-on")
}

func c06Stream(p peer.ID, t messages.THORChainTSSMessageType, id string, x byte) *verifnet.Stream {
	b, err := json.Marshal(messages.WrappedMessage{MessageType: t, MsgID: id, Payload: []byte{x}})
	verifrt.Assert(err == nil, "setup")
	return verifFrame(p, b)
}

// C06: no message of the party formation crashes or stalls the node.
// bound: the leader, a member or a node that joins without a leader, in a committee of three; 2 (thorough: 3) messages from the leader or another member or an unlisted peer, before or after the formation has ended, the first one sent once or twice: a response naming the committee or a malformed member, a request, one of no type, one for another session, an undecodable frame, sent on either protocol
// outside: more messages; requests racing with the timeout (see C17, C18)
// limit: 200s
func VerifH_C06_JoinMessages() {
	list := append([]string(nil), verifnet.PeerIDs[:3]...)
	l, err := LeaderNode("a", 10, list)
	verifrt.Assert(err == nil, "setup")
	var leader peer.ID
	var others []peer.ID
	for i := 0; i < 3; i++ {
		if list[i] == l {
			leader = verifnet.Peer(i)
		} else {
			others = append(others, verifnet.Peer(i))
		}
	}
	me := leader
	role := verifrt.Choose("role", 3)
	if role == 1 {
		me, others[0] = others[0], leader
	}
	h := verifnet.NewHost(me)
	pc := NewPartyCoordinator(h, 300*time.Millisecond)
	over := false
	join := func() {
		if role == 2 {
			pc.JoinPartyWithRetry("a", list)
		} else {
			pc.JoinPartyWithLeader("a", 10, list, 2, make(chan string))
		}
		over = true
	}
	go join()
	verifrt.Quiesce()
	k := 2
	if verifrt.Thorough() {
		k = 3
	}
	during := verifrt.Choose("during", 3)
	for i := 0; i < k; i++ {
		if i == during {
			verifrt.Advance(3000)
			verifrt.Quiesce()
			verifrt.Assert(over, "C06-formation-ends")
		}
		from := []peer.ID{others[0], others[1], verifnet.Peer(4)}[verifrt.Choose("from", 3)]
		m := &messages.JoinPartyLeaderComm{ID: "a", MsgType: "response", Type: messages.JoinPartyLeaderComm_Success, PeerIDs: list}
		kind := verifrt.Choose("message", 6)
		switch kind {
		case 1:
			m.PeerIDs = []string{"bad", list[0]}
		case 2:
			m = &messages.JoinPartyLeaderComm{ID: "a", MsgType: "request"}
		case 3:
			m = &messages.JoinPartyLeaderComm{ID: "a"}
		case 4:
			m.ID = "b"
		}
		leaderless := verifrt.Choose("protocol", 2) == 1
		times := 1
		if i == 0 {
			times += verifrt.Choose("again", 2)
		}
		for ; times > 0; times-- {
			frame := verifMsg(from, m)
			if kind == 5 {
				frame = verifFrame(from, []byte{0xff, 0xff, 0xff})
			}
			if leaderless {
				go pc.HandleStream(frame)
			} else {
				go pc.HandleStreamWithLeader(frame)
			}
		}
		verifrt.Quiesce()
	}
	verifrt.Advance(3000)
	verifrt.Quiesce()
	verifrt.Reach("over")
	verifrt.Assert(over, "C06-formation-ends")
	verifrt.Assert(verifrt.Goroutines() == 0, "C06-no-goroutine-left")
}
