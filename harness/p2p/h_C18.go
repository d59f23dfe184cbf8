package p2p

import (
	"errors"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

type c18Result struct {
	online []peer.ID
	err    error
}

// C18: leaderless joining succeeds only with every listed peer and otherwise
// returns exactly this node and those that announced themselves.
// bound: every list of up to 3 other peers with or without this node; 3 (quick) / 4 (thorough) announcements, each from any of 3 peers, an unlisted one or this node itself, for this request or for one whose id has another character at the beginning, in the middle or at the end; an undecodable or truncated announcement before them
// outside: more peers, announcements racing with the timeout (see Concurrent)
func VerifH_C18_Join() {
	n := 3
	if verifrt.Thorough() {
		n = 4
	}
	me := verifnet.Peer(0)
	h := verifnet.NewHost(me)
	pc := NewPartyCoordinator(h, 300*time.Millisecond)
	var list []string
	var listed []peer.ID
	lists := [][]int{{0, 1, 2}, {1, 2}, {2, 0}, {1, 2, 3, 0}, {0}, {1, 0, 1}}
	for _, i := range lists[verifrt.Choose("list", len(lists))] {
		list = append(list, verifnet.PeerIDs[i])
		p := verifnet.Peer(i)
		if p != me && verifHas(listed, p) == 0 {
			listed = append(listed, p)
		}
	}
	ret := make(chan c18Result, 1)
	go func() {
		o, err := pc.JoinPartyWithRetry(verifnet.Session, list)
		ret <- c18Result{o, err}
	}()
	verifrt.Quiesce()
	var announced []peer.ID
	var before []int // streams opened before each of them
	noise := verifrt.Choose("noise", 3)
	at := verifnet.Places[noise] // where the ids differ
	switch noise {
	case 1:
		pc.HandleStream(verifFrame(verifnet.Peer(1), []byte{0xff, 0xff, 0xff}))
	case 2:
		s := verifMsg(verifnet.Peer(2), &messages.JoinPartyRequest{ID: verifnet.Session})
		s.In = s.In[:len(s.In)-1]
		pc.HandleStream(s)
	}
	for i := 0; i < n; i++ {
		from := verifnet.Peer([]int{1, 2, 3, 4, 0}[verifrt.Choose("from", 5)])
		c := verifrt.Str("id", 1)
		verifrt.Assume(c[0] < 0x80) // ids travel as UTF-8
		id := verifnet.AlikeSession(at, c)
		pc.HandleStream(verifMsg(from, &messages.JoinPartyRequest{ID: id}))
		if id == verifnet.Session && verifHas(announced, from) == 0 {
			announced = append(announced, from)
			before = append(before, len(h.Streams))
		}
	}
	r := <-ret
	all := true
	for _, p := range listed {
		if verifHas(announced, p) == 0 {
			all = false
		}
	}
	if all {
		verifrt.Reach("everyone announced")
	} else {
		verifrt.Reach("someone missing")
		verifrt.Assert(r.err != nil, "C18-no-success-without-every-listed-peer")
	}
	verifrt.Assert(verifHas(r.online, me) == 1, "C18-this-node-is-online")
	for _, p := range listed {
		verifrt.Assert(verifHas(r.online, p) == verifHas(announced, p), "C18-online-exactly-the-announced")
	}
	for _, p := range r.online {
		verifrt.Assert(p == me || verifHas(listed, p) == 1, "C18-unlisted-peers-do-not-count")
	}
	if all && verifHas(listed, me) == 0 && len(list) == len(listed)+1 {
		verifrt.Assert(r.err == nil, "C18-success-when-everyone-announced")
	}
	for _, s := range h.Streams {
		verifrt.Assert(verifHas(listed, s.Peer) == 1, "C18-announces-only-to-listed-peers")
	}
	for _, p := range listed {
		start := 0
		for i, a := range announced {
			if a == p {
				start = before[i]
			}
		}
		told := false
		for _, s := range h.Streams[start:] {
			told = told || s.Peer == p && s.Proto == joinPartyProtocol && len(s.Out) > 0
		}
		verifrt.Assert(told, "C18-announces-itself-to-those-that-come-online")
	}
	verifrt.Assert(verifrt.Goroutines() == 0, "C18-no-goroutine-left")
}

// C18: announcements that arrive while the join starts, runs and times out.
// bound: one (quick) / two (thorough) listed peers, one announcement of each, all concurrent with the join; every interleaving with up to 1 (quick) / 2 (thorough) preemptions, up to two timers firing at any point
func VerifH_C18_Concurrent() {
	me := verifnet.Peer(0)
	h := verifnet.NewHost(me)
	pc := NewPartyCoordinator(h, 300*time.Millisecond)
	// sending happens at the start and after the outcome is decided: keep it
	// out of the schedules explored
	h.Open = func(p peer.ID, _ protocol.ID) (*verifnet.Stream, error) {
		verifrt.NoSched()
		return nil, errors.New("unreachable")
	}
	froms := []int{1}
	if verifrt.Thorough() {
		froms = []int{1, 2}
	}
	list := []string{verifnet.PeerIDs[0]}
	for _, i := range froms {
		list = append(list, verifnet.PeerIDs[i])
	}
	ret := make(chan c18Result, 1)
	k := 1
	if verifrt.Thorough() {
		k = 2
	}
	go func() {
		o, err := pc.JoinPartyWithRetry(verifnet.Session, list)
		ret <- c18Result{o, err}
	}()
	verifrt.Quiesce()
	verifrt.Sched(k)
	verifrt.TimersAny(2)
	for _, i := range froms {
		s := verifMsg(verifnet.Peer(i), &messages.JoinPartyRequest{ID: verifnet.Session})
		go pc.HandleStream(s)
	}
	r := <-ret
	verifrt.NoSched()
	verifrt.Assert(verifHas(r.online, me) == 1, "C18-this-node-is-online")
	if r.err == nil {
		verifrt.Reach("success")
		verifrt.Assert(len(r.online) == len(list), "C18-no-success-without-every-listed-peer")
	} else {
		verifrt.Reach("timeout")
		verifrt.Assert(len(r.online) < len(list), "C18-success-when-everyone-announced")
	}
}

// C18: large committees.
// bound: 6, 9 or 13 listed peers, this node among the first, in the middle, the last or not listed; any number of the others announce themselves, in ascending or descending order, each once or twice, an unlisted one as well or not
func VerifH_C18_Large() {
	n := []int{6, 9, 13}[verifrt.Choose("listed", 3)]
	mine := []int{0, n / 2, n - 1, 13}[verifrt.Choose("this node is", 4)]
	me := verifnet.ManyPeer(mine)
	h := verifnet.NewHost(me)
	pc := NewPartyCoordinator(h, 300*time.Millisecond)
	list := append([]string(nil), verifnet.ManyPeerIDs[:n]...)
	var others []peer.ID
	for i := 0; i < n; i++ {
		if i != mine {
			others = append(others, verifnet.ManyPeer(i))
		}
	}
	ret := make(chan c18Result, 1)
	go func() {
		o, err := pc.JoinPartyWithRetry(verifnet.Session, list)
		ret <- c18Result{o, err}
	}()
	verifrt.Quiesce()
	k := verifrt.Choose("announced", len(others)+1)
	down := verifrt.Choose("descending", 2) == 1
	times := 1 + verifrt.Choose("twice", 2)
	if n < 13 && verifrt.Choose("stranger", 2) == 1 {
		pc.HandleStream(verifMsg(verifnet.ManyPeer(12), &messages.JoinPartyRequest{ID: verifnet.Session}))
	}
	var announced []peer.ID
	for i := 0; i < k; i++ {
		p := others[i]
		if down {
			p = others[len(others)-1-i]
		}
		for j := 0; j < times; j++ {
			pc.HandleStream(verifMsg(p, &messages.JoinPartyRequest{ID: verifnet.Session}))
		}
		announced = append(announced, p)
	}
	r := <-ret
	if k == len(others) {
		verifrt.Reach("everyone announced")
		if mine < n {
			verifrt.Assert(r.err == nil, "C18-success-when-everyone-announced")
		}
	} else {
		verifrt.Reach("someone missing")
		verifrt.Assert(r.err != nil, "C18-no-success-without-every-listed-peer")
	}
	verifrt.Assert(verifHas(r.online, me) == 1 && len(r.online) == k+1, "C18-online-exactly-the-announced")
	for _, p := range announced {
		verifrt.Assert(verifHas(r.online, p) == 1, "C18-online-exactly-the-announced")
	}
	for _, p := range others {
		told := false
		for _, s := range h.Streams {
			told = told || s.Peer == p && s.Proto == joinPartyProtocol && len(s.Out) > 0
		}
		verifrt.Assert(told, "C18-announces-itself-to-those-that-come-online")
	}
	for _, s := range h.Streams {
		verifrt.Assert(verifHas(others, s.Peer) == 1, "C18-announces-only-to-listed-peers")
	}
	verifrt.Assert(verifrt.Goroutines() == 0, "C18-no-goroutine-left")
}

// C18: a second join for the same request starts from nothing.
// bound: two other peers; any subset announces itself during the first join, any one or none between the two and any subset during the second
// outside: two joins for the same request running at the same time
func VerifH_C18_Again() {
	me := verifnet.Peer(0)
	peers := []peer.ID{verifnet.Peer(1), verifnet.Peer(2)}
	list := append([]string(nil), verifnet.PeerIDs[:3]...)
	h := verifnet.NewHost(me)
	pc := NewPartyCoordinator(h, 300*time.Millisecond)
	ret := make(chan c18Result, 1)
	tell := func(from peer.ID) {
		pc.HandleStream(verifMsg(from, &messages.JoinPartyRequest{ID: verifnet.Session}))
		verifrt.Quiesce()
	}
	for round := 0; round < 2; round++ {
		start := len(h.Streams)
		go func() {
			o, err := pc.JoinPartyWithRetry(verifnet.Session, list)
			ret <- c18Result{o, err}
		}()
		verifrt.Quiesce()
		sel := verifrt.Choose("announcing", 4)
		var announced []peer.ID
		for i, p := range peers {
			if sel&(1<<uint(i)) != 0 {
				announced = append(announced, p)
				tell(p)
			}
		}
		r := <-ret
		verifrt.Quiesce()
		verifrt.Assert((r.err == nil) == (len(announced) == 2), "C18-no-success-without-every-listed-peer")
		verifrt.Assert(verifHas(r.online, me) == 1 && len(r.online) == len(announced)+1, "C18-online-exactly-the-announced")
		for _, p := range peers {
			verifrt.Assert(verifHas(r.online, p) == verifHas(announced, p), "C18-online-exactly-the-announced")
			told := false
			for _, s := range h.Streams[start:] {
				told = told || s.Peer == p && s.Proto == joinPartyProtocol && len(s.Out) > 0
			}
			verifrt.Assert(told, "C18-announces-itself-to-every-listed-peer")
		}
		if round == 0 {
			if late := verifrt.Choose("between", 3); late > 0 {
				tell(peers[late-1])
			}
		} else {
			verifrt.Reach("again")
		}
	}
	verifrt.Assert(verifrt.Goroutines() == 0, "C18-no-goroutine-left")
}
