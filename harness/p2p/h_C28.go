package p2p

import (
	"errors"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-core/protocol"
	maddr "github.com/multiformats/go-multiaddr"

	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

type c28Store struct{ peerstore.Peerstore }

func (c28Store) RecordLatency(peer.ID, time.Duration) {}

func c28Comm(addrs []maddr.Multiaddr) (*Communication, *verifnet.Host) {
	c, err := NewCommunication("rendezvous", addrs, 6668, "")
	verifrt.Assert(err == nil, "C28-setup")
	h := verifnet.NewHost("me")
	h.Hang, h.Refuse, h.Store = map[peer.ID]bool{}, map[peer.ID]bool{}, c28Store{}
	c.host = h
	return c, h
}

// c28Addr is an address (any of 65536 for the first one) of a fixture peer, or one that names no peer.
func c28Addr(i int, named bool) maddr.Multiaddr {
	b := []byte{4, 10, 0, 0, byte(i), 6, 0x1a, 0x0c}
	if i == 0 {
		b[4], b[7] = verifrt.Byte("ip"), verifrt.Byte("port")
	}
	if named {
		id, err := maddr.NewMultiaddr("/p2p/" + verifnet.PeerIDs[i])
		verifrt.Assert(err == nil, "C28-setup")
		b = append(b, id.Bytes()...)
	}
	a, err := maddr.NewMultiaddrBytes(b)
	verifrt.Assert(err == nil, "C28-setup")
	return a
}

func c28Same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	var d byte
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

// C28: connecting succeeds exactly when nobody is listed or somebody listed was reached; everybody is tried at his address.
// bound: 0..3 (thorough: 4) bootstrap peers, the first at any IPv4 address and TCP port with the same upper bytes, each reachable, refusing or never answering
// outside: more peers; addresses that name no peer (refused, see Malformed); libp2p itself
// stub: the libp2p host
func VerifH_C28_Connect() {
	most := 3
	if verifrt.Thorough() {
		most = 4
	}
	n := verifrt.Choose("peers", most+1)
	var addrs []maddr.Multiaddr
	for i := 0; i < n; i++ {
		addrs = append(addrs, c28Addr(i, true))
	}
	c, h := c28Comm(addrs)
	reachable := 0
	for i := 0; i < n; i++ {
		switch verifrt.Choose("peer is", 3) {
		case 0:
			reachable++
		case 1:
			h.Refuse[verifnet.Peer(i)] = true
		case 2:
			h.Hang[verifnet.Peer(i)] = true
		}
	}
	start := time.Now()
	err := c.connectToBootstrapPeers()
	verifrt.Assert(time.Since(start) < TimeoutConnecting+TimeoutConnecting/2, "C28-one-silent-peer-does-not-delay-the-others")
	if n == 0 || reachable > 0 {
		verifrt.Reach("connected")
		verifrt.Assert(err == nil, "C28-any-reachable-peer-will-do")
	} else {
		verifrt.Reach("unreachable")
		verifrt.Assert(err != nil, "C28-no-peer-reached-is-an-error")
	}
	verifrt.Assert(len(h.Dialed) == n, "C28-every-peer-is-tried")
	for i := 0; i < n; i++ {
		times := 0
		for _, d := range h.Dialed {
			if d.ID == verifnet.Peer(i) {
				times++
				verifrt.Assert(len(d.Addrs) == 1 && c28Same(d.Addrs[0].Bytes(), addrs[i].Bytes()[:8]), "C28-tried-at-its-address")
			}
		}
		verifrt.Assert(times == 1, "C28-every-peer-is-tried")
	}
	verifrt.Assert(verifrt.Goroutines() == 0, "C28-nothing-left-running")
}

// C28: the connectivity check passes exactly when nobody is listed or somebody listed answers.
// bound: 0..3 bootstrap peers, each answering correctly, answering something else, refusing the stream, resetting it or never answering; one of them possibly listed by an address that names no peer
// outside: more peers; libp2p itself
// stub: the libp2p host and the streams of its ping protocol
func VerifH_C28_Check() {
	n := verifrt.Choose("peers", 4)
	var addrs []maddr.Multiaddr
	nameless := verifrt.Choose("nameless", 4)
	for i := 0; i < n; i++ {
		addrs = append(addrs, c28Addr(i, i != nameless))
	}
	c, h := c28Comm(addrs)
	answers := 0
	kind := map[peer.ID]int{}
	for i := 0; i < n; i++ {
		if i == nameless {
			continue
		}
		p := verifnet.Peer(i)
		kind[p] = verifrt.Choose("peer is", 5)
		switch kind[p] {
		case 0:
			answers++
		case 2:
			h.Down[p] = true
		case 4:
			h.Hang[p] = true
		}
	}
	h.Open = func(p peer.ID, proto protocol.ID) (*verifnet.Stream, error) {
		s := &verifnet.Stream{Peer: p, Proto: proto}
		pings := 0
		s.WriteFn = func(b []byte) (int, error) {
			pings++
			if pings > 1 {
				// one answer is enough, then the link breaks
				return 0, errors.New("reset")
			}
			switch kind[p] {
			case 0:
				s.In = append([]byte(nil), b...)
			case 1:
				s.In = append([]byte(nil), b...)
				s.In[0] ^= 1
			case 3:
				return 0, errors.New("reset")
			}
			return len(b), nil
		}
		return s, nil
	}
	start := time.Now()
	err := c.bootStrapConnectivityCheck()
	verifrt.Assert(time.Since(start) <= 3*time.Second, "C28-one-silent-peer-does-not-delay-the-others")
	if n == 0 || answers > 0 {
		verifrt.Reach("passed")
		verifrt.Assert(err == nil, "C28-any-answering-peer-will-do")
	} else {
		verifrt.Reach("failed")
		verifrt.Assert(err != nil, "C28-no-answer-is-an-error")
	}
}

// C28: an address that names no peer is an error, not a peer of another name.
// bound: 1..2 addresses (the first with any last byte of IPv4 address and TCP port), the first or second of them without a peer
// stub: the libp2p host
func VerifH_C28_Malformed() {
	n := 1 + verifrt.Choose("peers", 2)
	bad := verifrt.Choose("bad", n)
	var addrs []maddr.Multiaddr
	for i := 0; i < n; i++ {
		addrs = append(addrs, c28Addr(i, i != bad))
	}
	c, h := c28Comm(addrs)
	err := c.connectToBootstrapPeers()
	verifrt.Reach("tried")
	verifrt.Quiesce()
	reached := false
	for _, d := range h.Dialed {
		known := false
		for i := range addrs {
			known = known || i != bad && d.ID == verifnet.Peer(i)
		}
		verifrt.Assert(known, "C28-only-listed-peers-are-tried")
		reached = true
	}
	verifrt.Assert(err != nil || reached, "C28-no-peer-reached-is-an-error")
}

// C28: long lists of bootstrap peers.
// bound: 4..14 bootstrap peers of which all, none or all but one (at the beginning, in the middle or at the end) refuse or never answer
// stub: the libp2p host
func VerifH_C28_Many() {
	n := []int{4, 5, 9, 14}[verifrt.Choose("peers", 4)]
	hang := verifrt.Choose("hang", 2) == 1
	good := []int{-1, 0, n / 2, n - 1}[verifrt.Choose("reachable", 4)]
	var addrs []maddr.Multiaddr
	for i := 0; i < n; i++ {
		id, err := maddr.NewMultiaddr("/p2p/" + verifnet.ManyPeerIDs[i])
		verifrt.Assert(err == nil, "C28-setup")
		a, err := maddr.NewMultiaddrBytes(append([]byte{4, 10, 0, 0, byte(i), 6, 0x1a, 0x0c}, id.Bytes()...))
		verifrt.Assert(err == nil, "C28-setup")
		addrs = append(addrs, a)
	}
	c, h := c28Comm(addrs)
	for i := 0; i < n; i++ {
		if i != good {
			if hang {
				h.Hang[verifnet.ManyPeer(i)] = true
			} else {
				h.Refuse[verifnet.ManyPeer(i)] = true
			}
		}
	}
	start := time.Now()
	err := c.connectToBootstrapPeers()
	verifrt.Assert(time.Since(start) < TimeoutConnecting+TimeoutConnecting/2, "C28-one-silent-peer-does-not-delay-the-others")
	if good >= 0 {
		verifrt.Reach("connected")
		verifrt.Assert(err == nil, "C28-any-reachable-peer-will-do")
	} else {
		verifrt.Reach("unreachable")
		verifrt.Assert(err != nil, "C28-no-peer-reached-is-an-error")
	}
	for i := 0; i < n; i++ {
		times := 0
		for _, d := range h.Dialed {
			if d.ID == verifnet.ManyPeer(i) {
				times++
			}
		}
		verifrt.Assert(times == 1, "C28-every-peer-is-tried")
	}
	verifrt.Assert(verifrt.Goroutines() == 0, "C28-nothing-left-running")
}
