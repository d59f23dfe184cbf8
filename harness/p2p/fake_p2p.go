package p2p

import (
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"google.golang.org/protobuf/proto"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// verifMsg is an inbound stream carrying a protobuf message.
func verifMsg(from peer.ID, m proto.Message) *verifnet.Stream {
	b, err := proto.Marshal(m)
	verifrt.Assert(err == nil, "setup")
	return verifFrame(from, b)
}

func verifFrame(from peer.ID, b []byte) *verifnet.Stream {
	w := &verifnet.Stream{}
	WriteStreamWithBuffer(b, w)
	return &verifnet.Stream{Peer: from, In: w.Out}
}

// verifLeaderMsg decodes what was written to a stream of the leader protocol.
func verifLeaderMsg(s *verifnet.Stream) (*messages.JoinPartyLeaderComm, bool) {
	b, err := ReadStreamWithBuffer(&verifnet.Stream{In: s.Out})
	if err != nil {
		return nil, false
	}
	var m messages.JoinPartyLeaderComm
	if proto.Unmarshal(b, &m) != nil {
		return nil, false
	}
	return &m, true
}

func verifHas(ps []peer.ID, p peer.ID) int {
	n := 0
	for _, x := range ps {
		if x == p {
			n++
		}
	}
	return n
}

// VerifNewCommunication is a Communication on a stand-in host.
func VerifNewCommunication(h host.Host) *Communication {
	c, err := NewCommunication("r", nil, 1, "")
	verifrt.Assert(err == nil, "setup")
	c.host = h
	h.SetStreamHandler(TSSProtocolID, c.handleStream)
	return c
}

// VerifSubscribed tells whether somebody listens to a type of message of a session.
func VerifSubscribed(c *Communication, topic messages.THORChainTSSMessageType, msgID string) bool {
	return c.getSubscriber(topic, msgID) != nil
}

// VerifStart lets it send what a session hands over.
func VerifStart(c *Communication) {
	c.wg.Add(1)
	go c.ProcessBroadcast()
}
