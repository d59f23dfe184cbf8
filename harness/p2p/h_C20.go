package p2p

import (
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	maddr "github.com/multiformats/go-multiaddr"

	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

type c20Store struct {
	peerstore.Peerstore
	of map[peer.ID][]maddr.Multiaddr
	l  peer.IDSlice
}

func (s c20Store) Peers() peer.IDSlice               { return s.l }
func (s c20Store) Addrs(p peer.ID) []maddr.Multiaddr { return s.of[p] }

// C20: what is handed to the storage is every known peer with each of its addresses.
// bound: 0..3 or 14 peers with 0..3 addresses each (the last byte of one of them symbolic), every map order
// stub: the libp2p peer store
func VerifH_C20_Export() {
	n := []int{0, 1, 2, 3, 14}[verifrt.Choose("peers", 5)]
	c := VerifNewCommunication(verifnet.NewHost("me"))
	st := c20Store{of: map[peer.ID][]maddr.Multiaddr{}}
	want := map[peer.ID][][]byte{}
	for i := 0; i < n; i++ {
		p := verifnet.ManyPeer(i)
		st.l = append(st.l, p)
		k := i % 4
		if n < 4 {
			k = verifrt.Choose("addresses", 4)
		}
		for j := 0; j < k; j++ {
			b := []byte{4, 10, byte(i), byte(j), 1, 6, 0x1a, 0x0c}
			if i == 0 {
				b[4] = verifrt.Byte("ip")
			}
			a, err := maddr.NewMultiaddrBytes(b)
			verifrt.Assert(err == nil, "setup")
			st.of[p] = append(st.of[p], a)
			want[p] = append(want[p], b)
		}
	}
	c.host.(*verifnet.Host).Store = st
	book := c.ExportPeerAddress()
	verifrt.Reach("exported")
	for p, l := range book {
		known := false
		for _, x := range st.l {
			known = known || x == p
		}
		verifrt.Assert(known, "C20-only-known-peers-exported")
		verifrt.Assert(len(l) == len(want[p]), "C20-every-address-exported")
		for _, w := range want[p] {
			times := 0
			for _, a := range l {
				if c20Equal(a.Bytes(), w) {
					times++
				}
			}
			verifrt.Assert(times == 1, "C20-every-address-exported")
		}
	}
	for p := range want {
		_, ok := book[p]
		verifrt.Assert(ok, "C20-every-address-exported")
	}
}

func c20Equal(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	var d byte
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}
