package tss

import (
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	maddr "github.com/multiformats/go-multiaddr"

	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

func bootAddr(i int, where string) maddr.Multiaddr {
	a, err := maddr.NewMultiaddr(where)
	verifrt.Assert(err == nil, "setup")
	return a
}

// C28: a whole node at start tries the peers it saved and those it was given.
// bound: no address book, or one with 1..2 peers; 0..2 peers given, the first of them possibly a saved one at another address; each of the peers reachable, refusing, or refusing for 1 or 12 s; all or none of those reached answer a ping
// outside: peers that never answer (see Connect); libp2p itself
// stub: the libp2p host, the DHT and the announcements in it
func VerifH_C28_Start() {
	v := verifNewBoot(1)
	folder := verifrt.TempDir()
	where := []string{"/ip4/10.0.0.1/tcp/1000", "/ip4/10.0.0.2/tcp/2000", "/ip4/10.0.0.3/tcp/3000", "/ip4/10.0.0.4/tcp/4000"}
	type want struct {
		p peer.ID
		a maddr.Multiaddr
	}
	var all []want
	saved := verifrt.Choose("saved", 3)
	if saved > 0 {
		st, err := storage.NewFileStateMgr(folder)
		verifrt.Assert(err == nil, "setup")
		book := map[peer.ID]addr.AddrList{}
		for i := 0; i < saved; i++ {
			a := bootAddr(i, where[i])
			book[verifnet.Peer(i)] = addr.AddrList{a}
			all = append(all, want{verifnet.Peer(i), a})
		}
		verifrt.Assert(st.SaveAddressBook(book) == nil, "setup")
	}
	var given []maddr.Multiaddr
	n := verifrt.Choose("given", 3)
	for i := 0; i < n; i++ {
		who := 2 + i
		if i == 0 && verifrt.Bool("a saved one") {
			who = 0
		}
		given = append(given, bootAddr(who, where[2+i]+"/p2p/"+verifnet.PeerIDs[who]))
		all = append(all, want{verifnet.Peer(who), bootAddr(who, where[2+i])})
	}
	reached := 0
	var late []peer.ID
	seen := map[peer.ID]bool{}
	for _, w := range all {
		if seen[w.p] {
			continue
		}
		seen[w.p] = true
		switch verifrt.Choose("peer is", 3) {
		case 0:
			reached++
		case 1:
			v.h.Refuse[w.p] = true
		case 2:
			v.h.Refuse[w.p] = true
			late = append(late, w.p)
		}
	}
	// peers that take the connection and then answer nothing
	mute := reached > 0 && len(late) == 0 && verifrt.Bool("no answer to a ping")
	for _, w := range all {
		v.silent[w.p] = mute
	}
	wait := time.Second
	if reached == 0 && len(late) > 0 && verifrt.Bool("later") {
		wait = 12 * time.Second
	}
	done := make(chan bool)
	go func() {
		if len(late) > 0 {
			time.Sleep(wait)
		}
		for _, p := range late {
			delete(v.h.Refuse, p)
		}
		close(done)
	}()
	s, err := v.start(given, folder)
	<-done
	if mute {
		verifrt.Reach("silent")
		verifrt.Assert(err != nil, "C28-no-answer-is-an-error")
	} else if len(all) == 0 || reached > 0 || len(late) > 0 {
		verifrt.Reach("started")
		verifrt.Assert(err == nil && s != nil, "C28-any-reachable-peer-will-do")
	} else {
		verifrt.Reach("unreachable")
		verifrt.Assert(err != nil, "C28-no-peer-reached-is-an-error")
	}
	for _, w := range all {
		tried := false
		for _, d := range v.h.Dialed {
			tried = tried || d.ID == w.p && len(d.Addrs) == 1 && d.Addrs[0].Equal(w.a)
		}
		verifrt.Assert(tried, "C28-every-peer-is-tried")
	}
	for _, d := range v.h.Dialed {
		known := false
		for _, w := range all {
			known = known || d.ID == w.p && len(d.Addrs) == 1 && d.Addrs[0].Equal(w.a)
		}
		verifrt.Assert(known, "C28-tried-at-its-address")
	}
	if s != nil {
		s.Stop()
		verifrt.Quiesce()
		verifrt.Assert(verifrt.Goroutines() == 0, "C28-nothing-left-running")
	}
}
