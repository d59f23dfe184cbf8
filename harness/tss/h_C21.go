package tss

import (
	"encoding/json"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C21: when a request has been answered, every stream that was opened for it, by this node or by others, has been reset once; those of other sessions are left alone.
// bound: committee of 3; a key generation or a keysign, with or without a leader (this node or another one); the others online or one of them not; the computation ends, having sent one message, or does not
// stub: the network and the multi-party computation
func VerifH_C21_Answered() {
	verifrt.NoSched()
	withLeader := verifrt.Choose("leader", 2) == 1
	v := verifNewNode(3, verifrt.Choose("me", 3))
	p2p.VerifStart(v.s.p2pCommunication)
	sign := verifrt.Choose("keysign", 2) == 1
	version := "0.13.0"
	if withLeader {
		version = "0.14.0"
	}
	raw := c26Raw(1)
	v.running = func(ps []*verifParty) {
		for _, p := range ps {
			p.out <- common.VerifMessage(p.PartyID(), nil, 1, true, []byte{9})
		}
		time.Sleep(time.Second)
	}
	var id string
	kreq := keysign.NewRequest(v.name, c12Encode(raw), 10, append([]string{}, v.keys...), version)
	greq := func() keygen.Request { return keygen.NewRequest(append([]string{}, v.keys...), 10, version) }
	if sign {
		v.c26Instances(1, raw)
		id = v.c26ID(kreq)
	} else {
		v.c26NewKey()
		var err error
		id, err = v.s.requestToMsgId(greq())
		verifrt.Assert(err == nil, "setup")
	}
	v.finish = verifrt.Choose("finish", 2)
	away := (v.me + 1) % 3
	v.online[away] = verifrt.Bool("online")
	other := v.h.Me // somebody else
	for i, p := range v.peers {
		if i != v.me && i != away {
			other = p
		}
	}
	// another session's
	foreign := []*verifnet.Stream{v.c21Foreign(other, id)}
	if withLeader {
		leader := v.c26Leader(id, 10)
		go func() {
			time.Sleep(time.Second)
			if leader == v.me {
				for i, p := range v.peers {
					if i != v.me && v.online[i] {
						v.leaderAsked(p, id)
					}
				}
			} else {
				v.leaderSays(v.peers[leader], id, messages.JoinPartyLeaderComm_Success, v.peers)
			}
		}()
	}
	if sign {
		v.s.KeySign(kreq)
	} else {
		v.s.Keygen(greq())
	}
	verifrt.Quiesce()
	verifrt.Reach("answered")
	for _, s := range v.h.Streams {
		verifrt.Assert(s.Resets >= 1, "C21-streams-of-an-answered-request-are-reset")
		verifrt.Assert(s.Resets <= 1, "C21-stream-reset-only-once")
	}
	for _, s := range v.arrived {
		if s == foreign[0] {
			verifrt.Assert(s.Resets == 0, "C21-other-streams-untouched")
			continue
		}
		verifrt.Assert(s.Resets >= 1, "C21-streams-of-an-answered-request-are-reset")
		verifrt.Assert(s.Resets <= 1, "C21-stream-reset-only-once")
	}
}

// c21Foreign is a stream of another session: the last digit of the id differs.
func (v *verifNode) c21Foreign(from peer.ID, id string) *verifnet.Stream {
	c := "0"
	if id[len(id)-1] == '0' {
		c = "1"
	}
	b, err := verifWrapped(messages.TSSKeyGenMsg, id[:len(id)-1]+c)
	verifrt.Assert(err == nil, "setup")
	return v.arrive(from, "/p2p/tss", b)
}

func verifWrapped(t messages.THORChainTSSMessageType, id string) ([]byte, error) {
	return json.Marshal(messages.WrappedMessage{MessageType: t, MsgID: id, Payload: []byte("{}")})
}
