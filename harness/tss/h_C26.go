package tss

import (
	"bytes"
	"encoding/base64"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// c26Keysign is a keysign whose answer must be truthful.
func (v *verifNode) c26Keysign(req keysign.Request, id string) (keysign.Response, bool) {
	want := append([]string{}, req.Messages...)
	resp, err := v.s.KeySign(c26Copy(req))
	ok := err == nil && resp.Status == common.Success
	if ok {
		verifrt.Assert(len(want) > 0 && len(resp.Signatures) == len(want), "C26-success-only-with-every-signature")
		var got []string
		for _, s := range resp.Signatures {
			got = append(got, s.Msg)
			m, err := base64.StdEncoding.DecodeString(s.Msg)
			verifrt.Assert(err == nil, "C26-success-only-with-every-signature")
			sig := v.poolSign(m)
			r, err1 := base64.StdEncoding.DecodeString(s.R)
			t, err2 := base64.StdEncoding.DecodeString(s.S)
			verifrt.Assert(err1 == nil && err2 == nil && bytes.Equal(r, sig.R) && bytes.Equal(t, sig.S), "C26-success-only-with-valid-signatures")
		}
		verifrt.Assert(c14Same(got, want), "C26-success-only-with-every-signature")
	} else {
		verifrt.Assert(err != nil || resp.Status == common.Fail, "C26-failure-is-reported-as-failure")
		verifrt.Assert(len(resp.Signatures) == 0, "C26-no-signatures-in-a-failure")
	}
	for _, t := range []messages.THORChainTSSMessageType{messages.TSSKeySignMsg, messages.TSSKeySignVerMsg, messages.TSSControlMsg, messages.TSSTaskDone} {
		verifrt.Assert(!p2p.VerifSubscribed(v.s.p2pCommunication, t, id), "C26-subscriptions-cancelled")
	}
	return resp, ok
}

func c26Blamed(b blame.Blame, keys ...string) bool {
	var got []string
	for _, n := range b.BlameNodes {
		got = append(got, n.Pubkey)
	}
	return c14Same(got, keys)
}

// C26: signing with peers of whom some are offline, instances that do not start or do not finish, or a node that is stopped.
// bound: committee of 3, this node being any of them, leaderless party, 1..2 messages; any set of the other signers online; the first instance fails to start, or only the first k finish, having sent a share or nothing; the node is stopped at start or not at all
func VerifH_C26_Keysign() {
	verifrt.NoSched()
	me := verifrt.Choose("me", 3)
	v := verifNewNode(3, me)
	n := 1 + verifrt.Choose("messages", 2)
	raw := c26Raw(n)
	v.c26Instances(n, raw)
	if verifrt.Bool("sends") {
		v.running = func(ps []*verifParty) {
			for _, p := range ps {
				p.out <- common.VerifMessage(p.PartyID(), nil, 1, true, []byte{9})
			}
		}
	}
	v.startErr = verifrt.Bool("startErr")
	v.finish = verifrt.Choose("finish", n+1)
	a, b := (me+1)%3, (me+2)%3
	v.online[a], v.online[b] = verifrt.Bool("online1"), verifrt.Bool("online2")
	if verifrt.Bool("stopped") {
		close(v.s.stopChan)
	}
	req := keysign.NewRequest(v.name, c12Encode(raw), 10, append([]string{}, v.keys...), "0.13.0")
	resp, ok := v.c26Keysign(req, v.c26ID(req))
	verifrt.Assert(!ok || v.online[a] && v.online[b] && v.finish == n && !v.startErr, "C26-success-only-when-signed")
	if ok {
		verifrt.Reach("signed")
		return
	}
	verifrt.Reach("failed")
	var off []string
	for _, i := range []int{a, b} {
		if !v.online[i] {
			off = append(off, v.keys[i])
		}
	}
	if len(off) > 0 {
		verifrt.Reach("offline")
		verifrt.Assert(v.made == 0, "C26-no-signing-without-a-party")
		verifrt.Assert(c26Blamed(resp.Blame, off...), "C26-absent-peers-blamed")
	}
}

// C26: requests that cannot be served.
// bound: committee of 3; unknown pool key, undecodable message (4 characters, one of them any byte, alone or after a decodable beginning), 0..1 signers, a malformed version, no message, a signer of the network who has no share of the key, a single signer listed twice
func VerifH_C26_BadRequest() {
	verifrt.NoSched()
	v := verifNewNode(4, 0)
	stranger := v.keys[3]
	v.keys = v.keys[:3]
	st := v.st.have[v.name]
	st.ParticipantKeys = append([]string{}, v.keys...)
	v.st.have[v.name] = st
	raw := c26Raw(1)
	v.c26Instances(1, raw)
	req := keysign.NewRequest(v.name, c12Encode(raw), 10, append([]string{}, v.keys...), "0.13.0")
	bad := verifrt.Choose("bad", 9)
	switch bad {
	case 0:
		req.PoolPubKey = v.keys[1]
	case 1:
		c := verifrt.Byte("c")
		verifrt.Assume(c >= 0x80 || c < '+' || c > '/' && c < '0' || c > '9' && c < 'A' || c > 'Z' && c < 'a' || c > 'z')
		verifrt.Assume(c != '\n' && c != '\r')
		req.Messages = append(req.Messages, []string{"", "AbCd"}[verifrt.Choose("begins", 2)]+"ab"+string([]byte{c})+"d")
	case 2: // threshold 1: one signer is not enough
		req.SignerPubKeys = req.SignerPubKeys[:verifrt.Choose("signers", 2)]
	case 3:
		req.Version = []string{"", "0", "x.y.z", "0.14"}[verifrt.Choose("version", 4)]
	case 4:
		req.Messages = nil
	case 5: // a signer that is no key
		req.SignerPubKeys[1] = "thorpub1addwn"
	case 6: // a signer without a share of the key
		req.SignerPubKeys[1+verifrt.Choose("which", 2)] = stranger
	case 7: // one more
		req.SignerPubKeys = append(req.SignerPubKeys, stranger)
	case 8: // too few signers, one listed twice
		req.SignerPubKeys = []string{v.keys[0], v.keys[0]}
	}
	_, ok := v.c26Keysign(req, v.c26ID(req))
	verifrt.Reach("answered")
	verifrt.Assert(!ok, "C26-bad-request-is-no-success")
	if bad != 4 && bad != 8 {
		verifrt.Assert(v.made == 0, "C26-no-signing-without-a-party")
	}
}

// C26: a node that does not sign waits for the signatures of the others.
// bound: committee of 4, 2 messages, leaderless; up to 2 notifications: failed, wrong order, one missing, of another pool, complete; or none at all
func VerifH_C26_NonSigner() {
	verifrt.NoSched()
	v := verifNewNode(4, 3)
	raw := c26Raw(2)
	req := keysign.NewRequest(v.name, c12Encode(raw), 10, append([]string{}, v.keys[:3]...), "0.13.0")
	id := v.c26ID(req)
	other := *v
	other.pool, _, _ = verifKeyPair(101)
	good := false
	var kinds []int
	for i, n := 0, verifrt.Choose("notifications", 3); i < n; i++ {
		k := verifrt.Choose("kind", 6)
		kinds = append(kinds, k)
		good = good || k == 0
	}
	go func() {
		time.Sleep(time.Second)
		for i, k := range kinds {
			a, b := v.poolSign(raw[1]), v.poolSign(raw[0]) // descending order
			st := messages.KeysignSignature_Success
			switch k {
			case 0:
				v.notify(v.peers[i], id, st, a, b)
			case 1:
				v.notify(v.peers[i], id, messages.KeysignSignature_Failed)
			case 2:
				v.notify(v.peers[i], id, st, b, a)
			case 3:
				v.notify(v.peers[i], id, st, a)
			case 4:
				v.notify(v.peers[i], id, st, other.poolSign(raw[1]), other.poolSign(raw[0]))
			case 5:
				v.notify(v.peers[i], id, messages.KeysignSignature_Failed, a, b)
			}
		}
	}()
	_, ok := v.c26Keysign(req, id)
	verifrt.Assert(ok == good, "C26-success-exactly-when-received")
	verifrt.Assert(v.made == 0, "C26-no-signing-by-a-non-signer")
	if ok {
		verifrt.Reach("received")
	} else {
		verifrt.Reach("nothing")
	}
}

// C26: a party formed by a leader, this node being the leader or not.
// bound: committee of 3 (threshold 1), 1 message; the others online or not (as a member: the leader answers with a party with or without this node, a timeout, or not at all); the instance finishes or not; a valid or failed notification of the signature before or after the party is formed, or none
func VerifH_C26_Leader() {
	verifrt.NoSched()
	v := verifNewNode(3, verifrt.Choose("me", 3))
	raw := c26Raw(1)
	v.c26Instances(1, raw)
	v.finish = verifrt.Choose("finish", 2)
	req := keysign.NewRequest(v.name, c12Encode(raw), 10, nil, "0.14.0")
	id := v.c26ID(req)
	leader := v.c26Leader(id, 10)
	other := 0
	for other == v.me || other == leader {
		other++
	}
	when, status := verifrt.Choose("notified", 3), messages.KeysignSignature_Success
	if when > 0 {
		if verifrt.Bool("failed") {
			status = messages.KeysignSignature_Failed
		}
		go func() {
			time.Sleep([]time.Duration{0, 200, 8000}[when] * time.Millisecond)
			v.notify(v.peers[other], id, status, v.poolSign(raw[0]))
		}()
	}
	received := when > 0 && status == messages.KeysignSignature_Success
	if v.me == leader {
		joined := 0
		for i := range v.peers {
			if i != v.me {
				v.online[i] = verifrt.Bool("online")
				if v.online[i] {
					joined++
				}
			}
		}
		go func() {
			time.Sleep(time.Second)
			for i, p := range v.peers {
				if i != v.me && v.online[i] {
					v.leaderAsked(p, id)
				}
			}
		}()
		_, ok := v.c26Keysign(req, id)
		signed := joined > 0 && v.finish == 1
		// (an earlier notification ends the formation, a later one the signing that does not finish)
		verifrt.Assert(ok == (signed || received), "C26-success-exactly-when-signed-or-received")
		if ok {
			verifrt.Reach("leader-success")
		} else {
			verifrt.Reach("leader-failure")
		}
		return
	}
	answer := verifrt.Choose("answer", 4)
	party := []peer.ID{v.peers[leader], v.peers[v.me]}
	go func() {
		time.Sleep(time.Second)
		switch answer {
		case 0:
			v.leaderSays(v.peers[leader], id, messages.JoinPartyLeaderComm_Success, party)
		case 1:
			v.leaderSays(v.peers[leader], id, messages.JoinPartyLeaderComm_Success, []peer.ID{v.peers[leader], v.peers[other]})
		case 2:
			v.leaderSays(v.peers[leader], id, messages.JoinPartyLeaderComm_Timeout, party[:1])
		case 3:
			// another member is not obeyed
			v.leaderSays(v.peers[other], id, messages.JoinPartyLeaderComm_Success, party)
		}
	}()
	resp, ok := v.c26Keysign(req, id)
	signed := answer == 0 && v.finish == 1
	verifrt.Assert(ok == (signed || received), "C26-success-exactly-when-signed-or-received")
	if ok {
		verifrt.Reach("member-success")
		return
	}
	verifrt.Reach("member-failure")
	if answer == 3 {
		verifrt.Assert(c26Blamed(resp.Blame, v.keys[leader]), "C26-silent-leader-blamed")
	}
}

// c26Keygen is a key generation whose answer must be truthful.
func (v *verifNode) c26Keygen(req keygen.Request) (keygen.Response, bool) {
	id, err := v.s.requestToMsgId(keygen.NewRequest(append([]string{}, req.Keys...), req.BlockHeight, req.Version))
	verifrt.Assert(err == nil, "setup")
	want := append([]string{}, req.Keys...)
	resp, err := v.s.Keygen(keygen.NewRequest(append([]string{}, req.Keys...), req.BlockHeight, req.Version))
	ok := err == nil && resp.Status == common.Success
	if ok {
		name, address, err := conversion.GetTssPubKey(v.newKey.ECDSAPub)
		verifrt.Assert(err == nil && resp.PubKey == name && resp.PoolAddress == address.String(), "C26-success-only-with-the-key")
		verifrt.Assert(len(v.st.saved) == 1, "C26-success-only-with-the-share-saved")
		st := v.st.saved[0]
		verifrt.Assert(st.PubKey == name && c14Same(st.ParticipantKeys, want) && st.LocalPartyKey == v.keys[v.me], "C26-the-right-share-saved")
		verifrt.Assert(st.LocalData.ECDSAPub == v.newKey.ECDSAPub && st.LocalData.ShareID != nil && st.LocalData.ShareID.Cmp(v.newKey.ShareID) == 0, "C26-the-right-share-saved")
	} else {
		verifrt.Assert(err != nil || resp.Status == common.Fail, "C26-failure-is-reported-as-failure")
		verifrt.Assert(resp.PubKey == "", "C26-no-key-in-a-failure")
	}
	for _, t := range []messages.THORChainTSSMessageType{messages.TSSKeyGenMsg, messages.TSSKeyGenVerMsg, messages.TSSControlMsg, messages.TSSTaskDone} {
		verifrt.Assert(!p2p.VerifSubscribed(v.s.p2pCommunication, t, id), "C26-subscriptions-cancelled")
	}
	return resp, ok
}

// C26: key generation, leaderless.
// bound: committee of 3; any set of the others online; the computation fails to start, never ends or ends; the share can be saved or not; the node is stopped before or not; this node's key is in the request or not
func VerifH_C26_Keygen() {
	verifrt.NoSched()
	v := verifNewNode(4, 0)
	v.c26NewKey()
	v.startErr = verifrt.Bool("startErr")
	v.finish = verifrt.Choose("finish", 2)
	v.st.fail = verifrt.Bool("diskFull")
	v.online[1], v.online[2] = verifrt.Bool("online1"), verifrt.Bool("online2")
	if verifrt.Bool("stopped") {
		close(v.s.stopChan)
	}
	from := verifrt.Choose("from", 2) // without this node's key in the second case
	resp, ok := v.c26Keygen(keygen.NewRequest(v.keys[from:3+from], 10, "0.13.0"))
	verifrt.Assert(!ok || from == 0 && v.online[1] && v.online[2] && v.finish == 1 && !v.startErr && !v.st.fail, "C26-success-only-when-generated")
	if ok {
		verifrt.Reach("generated")
		return
	}
	verifrt.Reach("failed")
	var off []string
	for i := 1; i < 3; i++ {
		if !v.online[i] {
			off = append(off, v.keys[i])
		}
	}
	if len(off) > 0 && from == 0 {
		verifrt.Reach("offline")
		verifrt.Assert(v.made == 0, "C26-no-generation-without-a-party")
		verifrt.Assert(c26Blamed(resp.Blame, off...), "C26-absent-peers-blamed")
	}
}

// C26: key generation with a leader, this node being the leader or not.
// bound: committee of 3; everybody has to join; as the leader: any set of the others asks to join; as a member: the leader answers with the party, a party that is too small, a timeout, or not at all; the computation ends or not
func VerifH_C26_KeygenLeader() {
	verifrt.NoSched()
	v := verifNewNode(3, verifrt.Choose("me", 3))
	v.c26NewKey()
	v.finish = verifrt.Choose("finish", 2)
	req := keygen.NewRequest(append([]string{}, v.keys...), 10, "0.14.0")
	id, err := v.s.requestToMsgId(keygen.NewRequest(append([]string{}, v.keys...), 10, "0.14.0"))
	verifrt.Assert(err == nil, "setup")
	leader := v.c26Leader(id, 10)
	other := 0
	for other == v.me || other == leader {
		other++
	}
	formed := false
	var off []string
	answer := -1
	if v.me == leader {
		for i, k := range v.keys {
			if i != v.me {
				v.online[i] = verifrt.Bool("online")
				if !v.online[i] {
					off = append(off, k)
				}
			}
		}
		formed = len(off) == 0
		go func() {
			time.Sleep(time.Second)
			for i, p := range v.peers {
				if i != v.me && v.online[i] {
					v.leaderAsked(p, id)
				}
			}
		}()
	} else {
		answer = verifrt.Choose("answer", 4)
		formed = answer == 0
		go func() {
			time.Sleep(time.Second)
			switch answer {
			case 0:
				v.leaderSays(v.peers[leader], id, messages.JoinPartyLeaderComm_Success, v.peers)
			case 1:
				v.leaderSays(v.peers[leader], id, messages.JoinPartyLeaderComm_Success, []peer.ID{v.peers[leader]})
			case 2:
				v.leaderSays(v.peers[leader], id, messages.JoinPartyLeaderComm_Timeout, []peer.ID{v.peers[leader], v.peers[v.me]})
			}
		}()
	}
	resp, ok := v.c26Keygen(req)
	verifrt.Assert(ok == (formed && v.finish == 1), "C26-success-exactly-when-generated")
	if !formed {
		verifrt.Assert(v.made == 0, "C26-no-generation-without-a-party")
	}
	switch {
	case ok:
		verifrt.Reach("generated")
	case v.me == leader && !formed:
		verifrt.Reach("leader-failure")
		verifrt.Assert(c26Blamed(resp.Blame, append(off, v.keys[leader])...), "C26-absent-peers-blamed")
	case answer == 3:
		verifrt.Reach("silent")
		verifrt.Assert(c26Blamed(resp.Blame, v.keys[leader]), "C26-silent-leader-blamed")
	case answer == 2:
		verifrt.Reach("leader-timeout")
		verifrt.Assert(c26Blamed(resp.Blame, v.keys[other], v.keys[leader]), "C26-absent-peers-blamed")
	}
}

// C26: a keysign that times out names the peers that were not heard from.
// bound: committee of 4 (threshold 2), 1 message; this node is in the first round; every other member sends nothing, its first unicast share, or that and its broadcast share (confirmed by everybody)
func VerifH_C26_TimeoutBlame() {
	verifrt.NoSched()
	v := verifNewNode(4, 0)
	raw := c26Raw(1)
	v.c26Instances(1, raw)
	v.finish = 0
	req := keysign.NewRequest(v.name, c12Encode(raw), 10, append([]string{}, v.keys...), "0.13.0")
	id := v.c26ID(req)
	var does []int
	var unicast, broadcast, notUnicast, notBroadcast []string
	for i := 1; i < 4; i++ {
		d := verifrt.Choose("does", 3)
		does = append(does, d)
		if d > 0 {
			unicast = append(unicast, v.keys[i])
		} else {
			notUnicast = append(notUnicast, v.keys[i])
		}
		if d > 1 {
			broadcast = append(broadcast, v.keys[i])
		} else {
			notBroadcast = append(notBroadcast, v.keys[i])
		}
	}
	v.running = func(ps []*verifParty) {
		me, inst := ps[0].PartyID(), ps[0].PartyID().Moniker
		ids := map[string]*btss.PartyID{}
		var others []*btss.PartyID
		for _, p := range ps[0].params.Parties().IDs() {
			k, err := conversion.PartyIDtoPubKey(p)
			verifrt.Assert(err == nil, "setup")
			ids[k] = p
			if p.Id != me.Id {
				others = append(others, p)
			}
		}
		for _, p := range others {
			ps[0].out <- common.VerifMessage(me, []*btss.PartyID{p}, 0, false, []byte{9})
		}
		ps[0].out <- common.VerifMessage(me, nil, 1, true, []byte{9})
		for i, d := range does {
			from := v.keys[1+i]
			if d > 0 {
				b, _ := common.VerifShare(v.privs[1+i], ids[from], id, inst, 0, false, []byte{byte(1 + i)})
				v.arrive(v.peers[1+i], "/p2p/tss", b)
			}
			if d > 1 {
				b, w := common.VerifShare(v.privs[1+i], ids[from], id, inst, 1, true, []byte{byte(1 + i)})
				v.arrive(v.peers[1+i], "/p2p/tss", b)
				for j := range does {
					if j != i {
						v.arrive(v.peers[1+j], "/p2p/tss", common.VerifConfirm(v.peers[1+j].String(), id, w))
					}
				}
			}
		}
	}
	resp, ok := v.c26Keysign(req, id)
	verifrt.Assert(!ok, "C26-success-only-when-signed")
	want := map[string]bool{}
	if len(unicast) > 0 {
		for _, k := range notUnicast {
			want[k] = true
		}
	}
	if len(broadcast) > 0 {
		for _, k := range notBroadcast {
			want[k] = true
		}
	}
	var keys []string
	for _, k := range v.keys {
		if want[k] {
			keys = append(keys, k)
		}
	}
	verifrt.Assert(c26Blamed(resp.Blame, keys...), "C26-silent-members-blamed")
	if len(keys) > 0 {
		verifrt.Reach("blamed")
	} else {
		verifrt.Reach("nobody")
	}
}

// C26: a request is answered as if the ones before it had not been made.
// bound: committee of 3, leaderless; two (quick) / three (thorough) requests in a row, each a key generation, a keysign of one message, of another one or of both; for each of them one of the others is offline or not, and the computation ends or not
// outside: requests running at the same time
func VerifH_C26_Again() {
	verifrt.NoSched()
	v := verifNewNode(3, 0)
	raw := c26Raw(2)
	n := 2
	if verifrt.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		v.mu.Lock()
		v.parties, v.made = nil, 0
		v.mu.Unlock()
		v.st.saved = nil
		kind := verifrt.Choose("request", 4)
		bad := verifrt.Choose("goes wrong", 3)
		v.online[2] = bad != 1
		var resp struct {
			blame blame.Blame
			ok    bool
		}
		if kind == 0 {
			v.c26NewKey()
			v.finish = 1
			if bad == 2 {
				v.finish = 0
			}
			r, ok := v.c26Keygen(keygen.NewRequest(append([]string{}, v.keys...), 10, "0.13.0"))
			resp.blame, resp.ok = r.Blame, ok
		} else {
			m := [][][]byte{raw[:1], raw[1:], raw}[kind-1]
			v.c26Instances(len(m), m)
			if bad == 2 {
				v.finish--
			}
			req := keysign.NewRequest(v.name, c12Encode(m), 10, append([]string{}, v.keys...), "0.13.0")
			r, ok := v.c26Keysign(req, v.c26ID(req))
			resp.blame, resp.ok = r.Blame, ok
		}
		verifrt.Assert(resp.ok == (bad == 0), "C26-answer-does-not-depend-on-earlier-requests")
		if bad == 1 {
			verifrt.Assert(c26Blamed(resp.blame, v.keys[2]), "C26-absent-peers-blamed")
		}
		if i > 0 && bad == 0 {
			verifrt.Reach("success after another request")
		}
	}
	verifrt.Reach("done")
}
