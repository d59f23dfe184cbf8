package p2p

import (
	"errors"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

type c17Result struct {
	online []peer.ID
	leader string
	err    error
}

// c17Roles elects the leader among the first n fixture peers for request verifnet.Session.
func c17Roles(n int) (list []string, leader peer.ID, others []peer.ID) {
	list = append([]string(nil), verifnet.PeerIDs[:n]...)
	l, err := LeaderNode(verifnet.Session, 10, list)
	verifrt.Assert(err == nil, "C17-setup")
	for i := 0; i < n; i++ {
		if list[i] == l {
			leader = verifnet.Peer(i)
		} else {
			others = append(others, verifnet.Peer(i))
		}
	}
	return
}

func c17Same(a []string, b []peer.ID) bool {
	if len(a) != len(b) {
		return false
	}
	for _, p := range b {
		n := 0
		for _, s := range a {
			if s == p.String() {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

// C17: the table of who asked to join counts distinct listed members only and
// signals exactly when the required number is reached.
// bound: 1..3 listed members and this node with symbolic 1-byte ids, 4 (quick) / 5 (thorough) requests by symbolic 1-byte ids, every required number 1..3
// outside: larger committees
func VerifH_C17_Counting() {
	k := 4
	if verifrt.Thorough() {
		k = 5
	}
	n := 1 + verifrt.Choose("members", 3)
	me := peer.ID("me")
	list := []peer.ID{me}
	for i := 0; i < n; i++ {
		p := peer.ID(verifrt.Str("member", 1))
		for _, q := range list {
			verifrt.Assume(p != q)
		}
		list = append(list, p)
	}
	th := 1 + verifrt.Choose("threshold", n)
	ps := NewPeerStatus(list, me, "leader", th)
	asked := map[int]bool{}
	signals := 0
	for i := 0; i < k; i++ {
		p := peer.ID(verifrt.Str("from", 1))
		idx := -1
		for j := 1; j <= n; j++ {
			if list[j] == p {
				idx = j
			}
		}
		before := len(asked)
		formed, err := ps.updatePeer(p)
		if idx < 0 {
			verifrt.Assert(!formed && err != nil, "C17-unlisted-request-does-not-count")
			continue
		}
		verifrt.Assert(err == nil, "C17-listed-request-is-accepted")
		if before < th {
			asked[idx] = true
		}
		if formed {
			signals++
			verifrt.Reach("formed")
			verifrt.Assert(len(asked) == th && before == th-1, "C17-released-only-with-the-required-number")
		} else {
			verifrt.Assert(len(asked) < th || before == th, "C17-released-when-the-required-number-asked")
		}
	}
	verifrt.Assert(signals <= 1, "C17-released-once")
	online, offline := ps.getPeersStatus()
	verifrt.Assert(len(online) == len(asked) && len(online)+len(offline) == n, "C17-online-are-those-that-asked")
	for j := 1; j <= n; j++ {
		for _, o := range online {
			if o == list[j] {
				verifrt.Assert(asked[j], "C17-online-are-those-that-asked")
			}
		}
	}
}

// c17ID is the session's id or one with another character at the given place.
func c17ID(at int) string {
	c := verifrt.Str("id", 1)
	verifrt.Assume(c[0] < 0x80) // ids travel as UTF-8
	return verifnet.AlikeSession(at, c)
}

// C17: the leader's side of the formation.
// bound: committees of 2..3 (quick) / 2..4 (thorough), every required number, 3 (quick) / 4 (thorough) inbound messages, each a request for this session or for one whose id has another character at the beginning, in the middle or at the end from any member, an unlisted peer or the leader itself; before them an undecodable message, a response or one of no type
// outside: requests racing with the timeout (see LeaderConcurrent)
func VerifH_C17_Leader() {
	k, nmax := 3, 3
	if verifrt.Thorough() {
		k, nmax = 4, 4
	}
	n := 2 + verifrt.Choose("committee", nmax-1)
	list, me, others := c17Roles(n)
	th := 1 + verifrt.Choose("threshold", n-1)
	h := verifnet.NewHost(me)
	pc := NewPartyCoordinator(h, 300*time.Millisecond)
	ret := make(chan c17Result, 1)
	go func() {
		o, l, err := pc.JoinPartyWithLeader(verifnet.Session, 10, list, th, make(chan string))
		ret <- c17Result{o, l, err}
	}()
	verifrt.Quiesce()
	noise := verifrt.Choose("noise", 4)
	at := verifnet.Places[noise%3] // where the ids differ
	var asked []peer.ID
	switch noise {
	case 1:
		pc.HandleStreamWithLeader(verifFrame(others[0], []byte{0xff, 0xff, 0xff}))
	case 2:
		pc.HandleStreamWithLeader(verifMsg(others[0], &messages.JoinPartyLeaderComm{ID: verifnet.Session, MsgType: "response", Type: messages.JoinPartyLeaderComm_Success, PeerIDs: list}))
	case 3:
		pc.HandleStreamWithLeader(verifMsg(others[0], &messages.JoinPartyLeaderComm{ID: verifnet.Session, MsgType: ""}))
	}
	senders := append(append([]peer.ID{}, others...), me, verifnet.Peer(4))
	for i := 0; i < k; i++ {
		from := senders[verifrt.Choose("from", len(senders))]
		id := c17ID(at)
		pc.HandleStreamWithLeader(verifMsg(from, &messages.JoinPartyLeaderComm{ID: id, MsgType: "request"}))
		if id == verifnet.Session && verifHas(others, from) == 1 && verifHas(asked, from) == 0 && len(asked) < th {
			asked = append(asked, from)
		}
		verifrt.Quiesce()
	}
	r := <-ret
	verifrt.Quiesce()
	verifrt.Assert(r.leader == me.String(), "C17-leader-as-elected")
	if len(asked) == th {
		verifrt.Reach("formed")
		verifrt.Assert(r.err == nil, "C17-released-when-the-required-number-asked")
	} else {
		verifrt.Reach("timeout")
		verifrt.Assert(r.err != nil, "C17-released-only-with-the-required-number")
	}
	verifrt.Assert(verifHas(r.online, me) == 1, "C17-leader-takes-part")
	verifrt.Assert(len(r.online) == len(asked)+1, "C17-online-are-those-that-asked")
	for _, p := range asked {
		verifrt.Assert(verifHas(r.online, p) == 1, "C17-online-are-those-that-asked")
	}
	// every member gets the same list, the one the leader uses
	for _, p := range others {
		sent := 0
		for _, s := range h.Streams {
			if s.Peer != p {
				continue
			}
			sent++
			m, ok := verifLeaderMsg(s)
			verifrt.Assert(ok && m.ID == verifnet.Session && m.MsgType == "response" && s.Proto == joinPartyProtocolWithLeader, "C17-response-sent-to-members")
			if ok {
				verifrt.Assert((m.Type == messages.JoinPartyLeaderComm_Success) == (r.err == nil), "C17-response-tells-the-outcome")
				verifrt.Assert(c17Same(m.PeerIDs, r.online), "C17-same-list-for-everyone")
			}
		}
		verifrt.Assert(sent == 1, "C17-response-sent-to-members")
	}
	verifrt.Assert(verifrt.Goroutines() == 0, "C17-no-goroutine-left")
}

// C17: a member's side: only a list of the elected leader is taken.
// bound: committees of 3, every required number, 2 (quick) / 3 (thorough) inbound responses or requests for this session or one whose id differs in one character as above, from the leader, the other member, an unlisted peer or this node; lists of 0..3 members, or with a malformed id, an unlisted peer or a repeated member, those of others complete, in the listed order or the leader first; both outcomes
func VerifH_C17_Member() {
	k := 2
	if verifrt.Thorough() {
		k = 3
	}
	list, leader, others := c17Roles(3)
	me := others[0]
	th := 1 + verifrt.Choose("threshold", 2)
	h := verifnet.NewHost(me)
	pc := NewPartyCoordinator(h, 300*time.Millisecond)
	ret := make(chan c17Result, 1)
	go func() {
		o, l, err := pc.JoinPartyWithLeader(verifnet.Session, 10, list, th, make(chan string))
		ret <- c17Result{o, l, err}
	}()
	verifrt.Quiesce()
	senders := []peer.ID{leader, others[1], verifnet.Peer(4), me}
	stranger := verifnet.Peer(4).String()
	lists := [][]string{nil, {leader.String()}, {leader.String(), me.String()}, list, {"not-a-peer"}, {leader.String(), "bad", me.String()},
		{leader.String(), me.String(), stranger}, {stranger, leader.String(), me.String(), others[1].String()}, {leader.String(), me.String(), me.String()}, {leader.String(), leader.String(), me.String()}}
	at := verifnet.Places[th-1] // where the ids differ
	if verifrt.Thorough() {
		at = verifnet.Places[verifrt.Choose("ids differ at", len(verifnet.Places))]
	}
	var first []string
	taken := false
	success := false
	for i := 0; i < k && !taken; i++ {
		from := senders[verifrt.Choose("from", len(senders))]
		id := c17ID(at)
		peers := list
		typ := messages.JoinPartyLeaderComm_Success
		if from == leader {
			peers = lists[verifrt.Choose("list", len(lists))]
		}
		if from == leader && verifrt.Choose("type", 2) == 1 {
			typ = messages.JoinPartyLeaderComm_Timeout
		}
		m := &messages.JoinPartyLeaderComm{ID: id, MsgType: "response", Type: typ, PeerIDs: peers}
		if from != leader {
			switch verifrt.Choose("message", 3) {
			case 0:
				m.MsgType = "request"
			case 1:
				m.PeerIDs = []string{leader.String(), me.String(), others[1].String()}
			}
		}
		pc.HandleStreamWithLeader(verifMsg(from, m))
		if m.MsgType == "response" && from == leader && id == verifnet.Session {
			taken, first, success = true, peers, typ == messages.JoinPartyLeaderComm_Success
		}
		verifrt.Quiesce()
	}
	r := <-ret
	verifrt.Assert(r.leader == leader.String(), "C17-leader-as-elected")
	if !taken {
		verifrt.Reach("no response of the leader")
		verifrt.Assert(r.err != nil && len(r.online) == 0, "C17-list-only-from-the-elected-leader")
	} else {
		verifrt.Reach("response of the leader")
		bad := false
		for i, s := range first {
			bad = bad || s == "not-a-peer" || s == "bad" || s == stranger
			for _, u := range first[:i] {
				bad = bad || s == u
			}
		}
		if success && !bad && len(first) >= th+1 {
			verifrt.Assert(r.err == nil, "C17-leader-list-is-taken")
			verifrt.Assert(c17Same(first, r.online), "C17-leader-list-is-taken")
		}
		if !success || bad || len(first) < th+1 {
			verifrt.Assert(r.err != nil, "C17-failed-formation-is-an-error")
		}
		if r.err == nil {
			verifrt.Assert(c17Same(first, r.online), "C17-leader-list-is-taken")
		}
	}
	for _, s := range h.Streams {
		m, ok := verifLeaderMsg(s)
		verifrt.Assert(ok && s.Peer == leader && m.ID == verifnet.Session && m.MsgType == "request", "C17-asks-only-the-leader")
	}
	verifrt.Assert(len(h.Streams) > 0, "C17-asks-only-the-leader")
	verifrt.Assert(verifrt.Goroutines() == 0, "C17-no-goroutine-left")
}

// C17: concurrent requests, also racing with the timeout.
// bound: a leader of 3, required number 1..2, one request of either member (quick) / both (thorough); every interleaving with up to 1 preemption, the timeout firing at any point
func VerifH_C17_LeaderConcurrent() {
	list, me, others := c17Roles(3)
	th := 1 + verifrt.Choose("threshold", 2)
	h := verifnet.NewHost(me)
	sent := 0
	// sending happens after the outcome is decided: keep it out of the schedules explored
	h.Open = func(p peer.ID, _ protocol.ID) (*verifnet.Stream, error) {
		verifrt.NoSched()
		sent++
		return &verifnet.Stream{Peer: p, ReadErr: errors.New("closed")}, nil
	}
	pc := NewPartyCoordinator(h, 300*time.Millisecond)
	ret := make(chan c17Result, 1)
	go func() {
		o, l, err := pc.JoinPartyWithLeader(verifnet.Session, 10, list, th, make(chan string))
		ret <- c17Result{o, l, err}
	}()
	verifrt.Quiesce()
	verifrt.Sched(1)
	verifrt.TimersAny(1)
	from := []peer.ID{others[verifrt.Choose("from", 2)]}
	if verifrt.Thorough() {
		from = others
	}
	for _, p := range from {
		s := verifMsg(p, &messages.JoinPartyLeaderComm{ID: verifnet.Session, MsgType: "request"})
		go pc.HandleStreamWithLeader(s)
	}
	r := <-ret
	verifrt.NoSched()
	verifrt.Quiesce()
	if r.err == nil {
		verifrt.Reach("formed")
		verifrt.Assert(len(r.online) == th+1, "C17-released-only-with-the-required-number")
	} else {
		verifrt.Reach("timeout")
		verifrt.Assert(len(r.online) < th+1, "C17-released-when-the-required-number-asked")
	}
	verifrt.Assert(verifHas(r.online, me) == 1, "C17-leader-takes-part")
	for _, p := range others {
		verifrt.Assert(verifHas(r.online, p) <= 1, "C17-online-are-those-that-asked")
	}
	verifrt.Assert(verifHas(r.online, verifnet.Peer(4)) == 0, "C17-unlisted-request-does-not-count")
	for _, s := range h.Streams {
		if len(s.Out) == 0 {
			continue // opening it timed out
		}
		m, ok := verifLeaderMsg(s)
		verifrt.Assert(ok && c17Same(m.PeerIDs, r.online), "C17-same-list-for-everyone")
	}
}

// C17: large committees.
// bound: committees of 5..14, required numbers 2, two thirds and all; the leader gets the requests of any number of the members, in ascending or descending order, each once or twice, possibly one of an unlisted peer first; a member gets a list of any number of the members, the last one possibly named twice
func VerifH_C17_Large() {
	n := []int{5, 6, 8, 13}[verifrt.Choose("committee", 4)]
	list := append([]string(nil), verifnet.ManyPeerIDs[:n]...)
	l, err := LeaderNode(verifnet.Session, 10, list)
	verifrt.Assert(err == nil, "C17-setup")
	var all, others []peer.ID
	var leader peer.ID
	for i := 0; i < n; i++ {
		p := verifnet.ManyPeer(i)
		all = append(all, p)
		if list[i] == l {
			leader = p
		} else {
			others = append(others, p)
		}
	}
	th := []int{1, (2*n+2)/3 - 1, n - 1}[verifrt.Choose("required", 3)]
	me := leader
	asLeader := verifrt.Choose("leader", 2) == 0
	if !asLeader {
		me = others[0]
	}
	h := verifnet.NewHost(me)
	pc := NewPartyCoordinator(h, 300*time.Millisecond)
	ret := make(chan c17Result, 1)
	go func() {
		o, l, err := pc.JoinPartyWithLeader(verifnet.Session, 10, list, th, make(chan string))
		ret <- c17Result{o, l, err}
	}()
	verifrt.Quiesce()
	if !asLeader {
		k := verifrt.Choose("named", n+1)
		named := append([]string(nil), list[n-k:]...)
		twice := k > 0 && verifrt.Choose("twice", 2) == 1
		if twice {
			named = append(named, named[k-1])
		}
		pc.HandleStreamWithLeader(verifMsg(leader, &messages.JoinPartyLeaderComm{ID: verifnet.Session, MsgType: "response", Type: messages.JoinPartyLeaderComm_Success, PeerIDs: named}))
		r := <-ret
		if k >= th+1 && !twice {
			verifrt.Reach("taken")
			verifrt.Assert(r.err == nil && c17Same(named, r.online), "C17-leader-list-is-taken")
		} else {
			verifrt.Reach("refused")
			verifrt.Assert(r.err != nil, "C17-failed-formation-is-an-error")
		}
		return
	}
	if verifrt.Choose("stranger", 2) == 1 && n < 13 {
		pc.HandleStreamWithLeader(verifMsg(verifnet.ManyPeer(13), &messages.JoinPartyLeaderComm{ID: verifnet.Session, MsgType: "request"}))
	}
	k := verifrt.Choose("asking", n)
	down := verifrt.Choose("descending", 2) == 1
	times := 1 + verifrt.Choose("twice", 2)
	asked := 0
	for i := 0; i < k; i++ {
		p := others[i]
		if down {
			p = others[len(others)-1-i]
		}
		for j := 0; j < times; j++ {
			pc.HandleStreamWithLeader(verifMsg(p, &messages.JoinPartyLeaderComm{ID: verifnet.Session, MsgType: "request"}))
			verifrt.Quiesce()
		}
		if asked < th {
			asked++
			all = append(all, p)
		}
	}
	r := <-ret
	verifrt.Quiesce()
	if asked == th {
		verifrt.Reach("formed")
		verifrt.Assert(r.err == nil, "C17-released-when-the-required-number-asked")
	} else {
		verifrt.Reach("timeout")
		verifrt.Assert(r.err != nil, "C17-released-only-with-the-required-number")
	}
	verifrt.Assert(len(r.online) == asked+1 && verifHas(r.online, me) == 1, "C17-online-are-those-that-asked")
	for _, p := range all[n:] {
		verifrt.Assert(verifHas(r.online, p) == 1, "C17-online-are-those-that-asked")
	}
	for _, p := range others {
		sent := 0
		for _, s := range h.Streams {
			if s.Peer == p {
				sent++
				m, ok := verifLeaderMsg(s)
				verifrt.Assert(ok && m.ID == verifnet.Session && (m.Type == messages.JoinPartyLeaderComm_Success) == (r.err == nil) && c17Same(m.PeerIDs, r.online), "C17-same-list-for-everyone")
			}
		}
		verifrt.Assert(sent == 1, "C17-response-sent-to-members")
	}
	verifrt.Assert(verifrt.Goroutines() == 0, "C17-no-goroutine-left")
}

// C17: a second formation for the same request starts from nothing.
// bound: committees of 3, every required number; any subset of the members asks during the first formation, any one or none between the two and any subset during the second; at a member, the leader answers the first formation, or not, with either outcome and, between the two or after it in the second one, with another list or not at all
// outside: two formations for the same request running at the same time
func VerifH_C17_Again() {
	list, leader, others := c17Roles(3)
	th := 1 + verifrt.Choose("threshold", 2)
	me := leader
	asMember := verifrt.Bool("member")
	if asMember {
		me = others[0]
	}
	h := verifnet.NewHost(me)
	pc := NewPartyCoordinator(h, 300*time.Millisecond)
	ret := make(chan c17Result, 1)
	join := func() {
		go func() {
			o, l, err := pc.JoinPartyWithLeader(verifnet.Session, 10, list, th, make(chan string))
			ret <- c17Result{o, l, err}
		}()
		verifrt.Quiesce()
	}
	tell := func(from peer.ID, m messages.JoinPartyLeaderComm) {
		m.ID = verifnet.Session
		pc.HandleStreamWithLeader(verifMsg(from, &m))
		verifrt.Quiesce()
	}
	if !asMember {
		for round := 0; round < 2; round++ {
			join()
			sel := verifrt.Choose("asking", 4)
			var asked []peer.ID
			for i, p := range others {
				if sel&(1<<uint(i)) != 0 {
					if len(asked) < th {
						asked = append(asked, p)
					}
					tell(p, messages.JoinPartyLeaderComm{MsgType: "request"})
				}
			}
			r := <-ret
			verifrt.Quiesce()
			verifrt.Assert((r.err == nil) == (len(asked) == th), "C17-released-only-with-the-required-number")
			verifrt.Assert(len(r.online) == len(asked)+1 && verifHas(r.online, me) == 1, "C17-online-are-those-that-asked")
			for _, p := range asked {
				verifrt.Assert(verifHas(r.online, p) == 1, "C17-online-are-those-that-asked")
			}
			if round == 0 {
				if late := verifrt.Choose("between", 3); late > 0 {
					tell(others[late-1], messages.JoinPartyLeaderComm{MsgType: "request"})
				}
			} else {
				verifrt.Reach("leader")
			}
		}
	} else {
		lists := [][]string{nil, list, {leader.String(), me.String()}}
		for round := 0; round < 2; round++ {
			join()
			use := lists[verifrt.Choose("answer", len(lists))]
			typ := messages.JoinPartyLeaderComm_Success
			if use != nil {
				if verifrt.Choose("type", 2) == 1 {
					typ = messages.JoinPartyLeaderComm_Timeout
				}
				tell(leader, messages.JoinPartyLeaderComm{MsgType: "response", Type: typ, PeerIDs: use})
			}
			r := <-ret
			verifrt.Quiesce()
			verifrt.Assert((r.err == nil) == (typ == messages.JoinPartyLeaderComm_Success && len(use) >= th+1), "C17-list-only-from-the-elected-leader")
			if r.err == nil {
				verifrt.Assert(c17Same(use, r.online), "C17-leader-list-is-taken")
			}
			if round == 0 && verifrt.Bool("between") {
				tell(leader, messages.JoinPartyLeaderComm{MsgType: "response", Type: messages.JoinPartyLeaderComm_Success, PeerIDs: list})
			}
			if round == 1 {
				verifrt.Reach("member")
			}
		}
	}
	verifrt.Assert(verifrt.Goroutines() == 0, "C17-no-goroutine-left")
}
