package tss

import (
	"time"

	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// c01Threshold: t+1 members are the smallest group of at least two thirds.
func c01Threshold(n int) int {
	t := 0
	for 3*(t+1) < 2*n {
		t++
	}
	return t
}

func c01Size() int {
	if verifrt.Thorough() {
		return 2 + verifrt.Choose("n", 9)
	}
	return 2 + verifrt.Choose("n", 6)
}

// c01Params: every instance of the computation has the threshold of the committee.
func (v *verifNode) c01Params(instances, n, party int) {
	verifrt.Assert(len(v.parties) == instances, "C01-started")
	for _, p := range v.parties {
		verifrt.Assert(p.params.Threshold() == c01Threshold(n), "C01-threshold-of-the-committee")
		verifrt.Assert(p.params.PartyCount() == party && len(p.params.Parties().IDs()) == party, "C01-party-size")
	}
}

// C01: a keysign without a leader needs t+1 signers and signs with threshold t, however many sign.
// bound: committees of 2..7 (quick) / 2..10 (thorough), any number of signers, 1..2 messages
// stub: the multi-party computation is replaced by one that records the parameters it is given
func VerifH_C01_Keysign() {
	verifrt.NoSched()
	n := c01Size()
	v := verifNewNode(n, 0)
	raw := c26Raw(1 + verifrt.Choose("messages", 2))
	v.expect, v.finish, v.sign = len(raw), len(raw), v.poolSign2(raw)
	signers := 1 + verifrt.Choose("signers", n)
	req := keysign.NewRequest(v.name, c12Encode(raw), 10, append([]string{}, v.keys[:signers]...), "0.13.0")
	resp, err := v.s.KeySign(req)
	if signers <= c01Threshold(n) {
		verifrt.Reach("too few")
		verifrt.Assert((err != nil || resp.Status != common.Success) && v.made == 0, "C01-too-few-signers-refused")
		return
	}
	verifrt.Reach("signed")
	verifrt.Assert(err == nil && resp.Status == common.Success, "C01-enough-signers-sign")
	v.c01Params(len(raw), n, signers)
}

// C01: a keysign with a leader waits for t members besides the leader.
// bound: committees of 2..7 (quick) / 2..10 (thorough), this node being the leader and any number of the others asking to join, or a member to which the leader names any number of members
// stub: the multi-party computation is replaced by one that records the parameters it is given
func VerifH_C01_KeysignLeader() {
	verifrt.NoSched()
	n := c01Size()
	raw := c26Raw(1)
	v := verifNewNode(n, 0)
	req := keysign.NewRequest(v.name, c12Encode(raw), 10, nil, "0.14.0")
	id := v.c26ID(req)
	leader := v.c26Leader(id, 10)
	me := leader
	if verifrt.Choose("member", 2) == 1 {
		me = (leader + 1) % n
	}
	v = verifNewNode(n, me)
	v.expect, v.finish, v.sign = 1, 1, v.poolSign2(raw)
	k := 1 + verifrt.Choose("party", n) // so many members with the leader and this node
	if me != leader {
		verifrt.Assume(k >= 2)
	}
	go func() {
		time.Sleep(time.Second)
		party := []peer.ID{v.peers[leader]}
		for i := 1; i < k; i++ {
			p := v.peers[(leader+i)%n]
			party = append(party, p)
			if me == leader {
				v.leaderAsked(p, id)
			}
		}
		if me != leader {
			v.leaderSays(v.peers[leader], id, messages.JoinPartyLeaderComm_Success, party)
		}
	}()
	resp, err := v.s.KeySign(req)
	t := c01Threshold(n)
	if k <= t {
		verifrt.Reach("too few")
		verifrt.Assert((err != nil || resp.Status != common.Success) && v.made == 0, "C01-too-few-members-refused")
		return
	}
	verifrt.Reach("signed")
	verifrt.Assert(err == nil && resp.Status == common.Success, "C01-enough-members-sign")
	if me == leader {
		k = t + 1 // the leader takes the first ones
	}
	v.c01Params(1, n, k)
}

// C01: a key is generated by the whole committee, with threshold t.
// bound: committees of 2..7 (quick) / 2..10 (thorough), with and without a leader (this node being it or not), any number of members joining
// stub: the multi-party computation is replaced by one that records the parameters it is given
func VerifH_C01_Keygen() {
	verifrt.NoSched()
	n := c01Size()
	version := []string{"0.13.0", "0.14.0"}[verifrt.Choose("leader", 2)]
	v := verifNewNode(n, 0)
	id, err := v.s.requestToMsgId(keygen.NewRequest(append([]string{}, v.keys...), 10, version))
	verifrt.Assert(err == nil, "setup")
	leader := v.c26Leader(id, 10)
	me := leader
	if verifrt.Choose("member", 2) == 1 {
		me = (leader + 1) % n
	}
	v = verifNewNode(n, me)
	v.c26NewKey()
	v.finish = 1
	k := 1 + verifrt.Choose("party", n)
	if me != leader {
		verifrt.Assume(k >= 2)
	}
	for i := k; i < n; i++ {
		v.online[(leader+i)%n] = false
	}
	if version == "0.14.0" {
		go func() {
			time.Sleep(time.Second)
			party := []peer.ID{v.peers[leader]}
			for i := 1; i < k; i++ {
				p := v.peers[(leader+i)%n]
				party = append(party, p)
				if me == leader {
					v.leaderAsked(p, id)
				}
			}
			if me != leader {
				v.leaderSays(v.peers[leader], id, messages.JoinPartyLeaderComm_Success, party)
			}
		}()
	}
	resp, err := v.s.Keygen(keygen.NewRequest(append([]string{}, v.keys...), 10, version))
	if k < n {
		verifrt.Reach("too few")
		verifrt.Assert((err != nil || resp.Status != common.Success) && v.made == 0, "C01-keygen-needs-everybody")
		return
	}
	verifrt.Reach("generated")
	verifrt.Assert(err == nil && resp.Status == common.Success, "C01-keygen-with-everybody")
	v.c01Params(1, n, n)
}
