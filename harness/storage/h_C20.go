package storage

import (
	"io/ioutil"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	ma "github.com/multiformats/go-multiaddr"

	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

func c20Addr(s string) ma.Multiaddr {
	a, err := ma.NewMultiaddr(s)
	verifrt.Assert(err == nil, "setup")
	return a
}

var c20Far = []string{
	"/ip4/192.168.3.5/tcp/6668",
	"/ip4/12.127.0.0/tcp/1",
	"/ip6/2001:db8::1/tcp/6668",
	"/dns4/seed.example.org/tcp/443/wss",
	"/ip4/10.0.0.1/udp/5040/quic",
	"/ip6/::ffff:8.8.8.8/tcp/80",
}

var c20Near = []string{
	"/ip4/127.0.0.1/tcp/6668",
	"/ip6/::1/tcp/6668",
	"/ip4/127.0.0.2/udp/5040/quic",
	"/ip4/127.255.0.9/tcp/1",
}

// c20Book is an address map of n peers and the set of records it stands for.
func c20Book(n, most, kinds int) (map[peer.ID]addr.AddrList, map[string]bool) {
	book, want := map[peer.ID]addr.AddrList{}, map[string]bool{}
	for i := 0; i < n; i++ {
		p := verifnet.Peer(i)
		l := addr.AddrList{}
		at := i
		for k := verifrt.Choose("addresses", most+1); k > 0; k-- {
			if verifrt.Choose("loopback", 2) == 1 {
				l = append(l, c20Addr(c20Near[at%len(c20Near)]))
			} else {
				a := c20Far[(at+verifrt.Choose("which", kinds))%len(c20Far)]
				rec := a + "/p2p/" + p.String()
				if want[rec] {
					continue
				}
				l = append(l, c20Addr(a))
				want[rec] = true
			}
			at++
		}
		book[p] = l
	}
	return book, want
}

// c20Is: the addresses are exactly the wanted ones, each once.
func c20Is(got addr.AddrList, want map[string]bool) bool {
	if len(got) != len(want) {
		return false
	}
	seen := map[string]bool{}
	for _, a := range got {
		s := a.String()
		if seen[s] || !want[s] {
			return false
		}
		seen[s] = true
	}
	return true
}

func c20Open(folder string) *FileStateMgr {
	m, err := NewFileStateMgr(folder)
	verifrt.Assert(err == nil, "C20-folder-opens")
	return m
}

// C20: the addresses read back are the non-loopback ones that were saved.
// bound: 0..3 peers with 0..2 addresses each (IPv4, IPv6, DNS, QUIC and secure websocket; loopback ones of both families), every map order; read back by the same or a restarted manager; a second, shorter or longer book saved over the first
// outside: an address that already names a peer
// stub: the file system model of the engine
// limit: 200s
func VerifH_C20_RoundTrip() {
	folder := filepath.Join(verifrt.TempDir(), "state")
	m := c20Open(folder)
	if verifrt.Choose("saved before", 2) == 1 {
		a, b := c20Addr(c20Far[0]), c20Addr(c20Far[3])
		old := map[peer.ID]addr.AddrList{verifnet.Peer(4): {a, b}, verifnet.Peer(1): {b}}
		verifrt.Assert(m.SaveAddressBook(old) == nil, "C20-a-book-can-be-saved")
	}
	n := verifrt.Choose("peers", 4)
	most := 2
	if n == 3 {
		most = 1
	}
	book, want := c20Book(n, most, 2)
	verifrt.MapOrders(true)
	err := m.SaveAddressBook(book)
	verifrt.MapOrders(false)
	verifrt.Assert(err == nil, "C20-a-book-can-be-saved")
	if verifrt.Choose("restart", 2) == 1 {
		m = c20Open(folder)
	}
	got, err := m.RetrieveP2PAddresses()
	verifrt.Reach("retrieved")
	verifrt.Assert(err == nil, "C20-a-saved-book-is-read")
	verifrt.Assert(c20Is(got, want), "C20-exactly-the-non-loopback-addresses")
}

// C20: every address of the classes below is saved and read back as it is, loopback ones are left out.
// bound: one IPv4 address with two symbolic bytes (first and last) and a symbolic port below 256
// stub: the file system model of the engine
// limit: 300s
func VerifH_C20_AnyAddress() {
	folder := filepath.Join(verifrt.TempDir(), "state")
	m := c20Open(folder)
	first, last, port := verifrt.Byte("first"), verifrt.Byte("last"), verifrt.Byte("port")
	a, err := ma.NewMultiaddrBytes([]byte{4, first, 0, 0, last, 6, 0, port})
	verifrt.Assert(err == nil, "setup")
	p := verifnet.Peer(0)
	verifrt.Assert(m.SaveAddressBook(map[peer.ID]addr.AddrList{p: {a}}) == nil, "C20-a-book-can-be-saved")
	got, err := m.RetrieveP2PAddresses()
	verifrt.Assert(err == nil, "C20-a-saved-book-is-read")
	if first == 127 {
		verifrt.Reach("loopback")
		verifrt.Assert(len(got) == 0, "C20-a-loopback-address-is-left-out")
		return
	}
	verifrt.Reach("kept")
	verifrt.Assert(len(got) == 1, "C20-the-address-is-there-once")
	b := got[0].Bytes()
	verifrt.Assert(len(b) > 8, "C20-the-address-is-unchanged")
	verifrt.Assert(verifrt.And(b[0] == 4, b[1] == first, b[2] == 0, b[3] == 0, b[4] == last, b[5] == 6, b[6] == 0, b[7] == port), "C20-the-address-is-unchanged")
	verifrt.Assert(got[0].String() == a.String()+"/p2p/"+p.String(), "C20-the-address-is-unchanged")
}

// C20: damaged content is an error or is skipped, never another address.
// bound: a book of two lines, one of them damaged: one symbolic byte in a number of an address, a symbolic line of one character (1..2 in the thorough tier), a truncated address or peer id, numbers out of range
// outside: damage of more bytes; a symbolic '/' (another structure of the same address)
// stub: the file system model of the engine
// limit: 300s
func VerifH_C20_Damaged() {
	folder := filepath.Join(verifrt.TempDir(), "state")
	m := c20Open(folder)
	id := "/p2p/" + verifnet.Peer(0).String()
	good := c20Far[0] + id
	var bad string
	switch verifrt.Choose("damage", 7) {
	case 0:
		x, y := "9", "8"
		if verifrt.Choose("where", 2) == 0 {
			x = verifrt.Str("x", 1)
		} else {
			y = verifrt.Str("y", 1)
		}
		verifrt.Assume(verifrt.And(x[0] != '/', y[0] != '/', x[0] != '\n', y[0] != '\n'))
		bad = "/ip4/1.2.3." + x + "/tcp/6" + y + id
	case 1:
		n := 1
		if verifrt.Thorough() {
			n = verifrt.Choose("length", 2) + 1
		}
		bad = verifrt.Str("line", n)
		for i := range bad {
			verifrt.Assume(verifrt.And(bad[i] != '\n', bad[i] != '/'))
		}
	case 2:
		bad = good[:len(good)-3]
	case 3:
		bad = "/ip4/192.168.3.256/tcp/6668" + id
	case 4:
		bad = "/ip4/192.168.3.5/tcp/66680" + id
	case 5:
		bad = "/ip4/192.168.3.5/tcp"
	case 6:
		bad = good[1:]
	}
	text := good + "\n" + bad + "\n"
	if verifrt.Choose("order", 2) == 1 {
		text = bad + "\n" + good
	}
	verifrt.Assert(ioutil.WriteFile(filepath.Join(folder, "address_book.seed"), []byte(text), 0600) == nil, "setup")
	got, err := m.RetrieveP2PAddresses()
	if err != nil {
		verifrt.Reach("error")
		return
	}
	verifrt.Reach("read")
	n := 0
	for _, a := range got {
		s := a.String()
		if s == good {
			n++
			continue
		}
		verifrt.Assert(s == bad, "C20-no-other-address-is-made-up")
	}
	verifrt.Assert(n == 1, "C20-the-undamaged-address-is-read")
	verifrt.Assert(len(got) <= 2, "C20-no-other-address-is-made-up")
}

// C20: without a book, or a folder for it, an error results.
// bound: the cases themselves
// stub: the file system model of the engine
func VerifH_C20_Missing() {
	folder := filepath.Join(verifrt.TempDir(), "state")
	m := c20Open(folder)
	got, err := m.RetrieveP2PAddresses()
	verifrt.Reach("missing")
	verifrt.Assert(err != nil && len(got) == 0, "C20-a-missing-book-is-an-error")
	none, err := NewFileStateMgr("")
	verifrt.Assert(err == nil, "C20-folder-opens")
	got, err = none.RetrieveP2PAddresses()
	verifrt.Assert(err != nil && len(got) == 0, "C20-no-folder-is-an-error")
	verifrt.Assert(none.SaveAddressBook(nil) != nil, "C20-no-folder-is-an-error")
}

func c20Crash(fault bool) {
	folder := filepath.Join(verifrt.TempDir(), "state")
	m := c20Open(folder)
	a, b := c20Addr(c20Far[0]), c20Addr(c20Far[3])
	old := map[string]bool{}
	had := verifrt.Choose("saved before", 2) == 1
	if had {
		p, q := verifnet.Peer(4), verifnet.Peer(1)
		verifrt.Assert(m.SaveAddressBook(map[peer.ID]addr.AddrList{p: {a, b}, q: {b}}) == nil, "C20-a-book-can-be-saved")
		old = map[string]bool{a.String() + "/p2p/" + p.String(): true, b.String() + "/p2p/" + p.String(): true, b.String() + "/p2p/" + q.String(): true}
	}
	book, want := c20Book(verifrt.Choose("peers", 3), 2, 1)
	var err error
	save := func() {
		err = m.SaveAddressBook(book)
	}
	var down bool
	if fault {
		down = verifrt.Fault(save)
	} else {
		down = verifrt.Crash(save)
	}
	if down {
		verifrt.Reach("down")
	} else {
		verifrt.Reach("up")
		verifrt.Assert(err == nil, "C20-a-book-can-be-saved")
	}
	if !fault {
		m = c20Open(folder)
	}
	got, gerr := m.RetrieveP2PAddresses()
	isNew := gerr == nil && c20Is(got, want)
	if !down || fault && err == nil {
		verifrt.Assert(isNew, "C20-a-successful-save-is-read")
	} else if had {
		verifrt.Assert(gerr == nil, "C20-the-book-survives-a-crash")
		verifrt.Assert(isNew || c20Is(got, old), "C20-the-old-or-the-new-book-survives")
	} else {
		verifrt.Assert(isNew || gerr != nil, "C20-no-damaged-book-after-a-crash")
	}
	p := verifnet.Peer(2)
	verifrt.Assert(m.SaveAddressBook(map[peer.ID]addr.AddrList{p: {a}}) == nil, "C20-a-book-can-be-saved-after-a-crash")
	got, gerr = m.RetrieveP2PAddresses()
	verifrt.Assert(gerr == nil && c20Is(got, map[string]bool{a.String() + "/p2p/" + p.String(): true}), "C20-a-book-can-be-saved-after-a-crash")
}

// C20: a crash while saving leaves the old or the new book.
// bound: one crash at every file operation of the save (and after it), a write cut at 0, 1, half or all but one of its bytes, unsynced data kept or lost; 0..2 peers with 0..2 addresses
// outside: a lost rename or directory entry (the file system orders metadata); two crashes
// stub: the file system model of the engine (replayed on the real file system with a wrapped package syscall)
// limit: 200s
func VerifH_C20_Crash() { c20Crash(false) }

// C20: a failing file operation while saving leaves the old or the new book, and success is not reported for nothing.
// bound: one failing file operation; otherwise as for crashes
// stub: the file system model of the engine (replayed on the real file system with a wrapped package syscall)
// limit: 200s
func VerifH_C20_Fault() { c20Crash(true) }

// C20: large books.
// bound: 1, 5 or 14 peers with 1, 7 or 60 addresses each (up to 840 lines, 70 kB), one of them possibly with a name of 5000 characters, a loopback one possibly at the beginning, in the middle or at the end of every list; saved over another book or not
// stub: the file system model of the engine
func VerifH_C20_Large() {
	folder := filepath.Join(verifrt.TempDir(), "state")
	m := c20Open(folder)
	n := []int{1, 5, 14}[verifrt.Choose("peers", 3)]
	k := []int{1, 7, 60}[verifrt.Choose("addresses", 3)]
	loop := []int{-1, 0, k / 2, k - 1}[verifrt.Choose("loopback", 4)]
	long := verifrt.Choose("long", 2) == 1
	if verifrt.Choose("saved before", 2) == 1 {
		a, b := c20Addr(c20Far[0]), c20Addr(c20Far[3])
		verifrt.Assert(m.SaveAddressBook(map[peer.ID]addr.AddrList{verifnet.Peer(4): {a, b}, verifnet.Peer(1): {b}}) == nil, "C20-a-book-can-be-saved")
	}
	book, want := map[peer.ID]addr.AddrList{}, map[string]bool{}
	for i := 0; i < n; i++ {
		p := verifnet.ManyPeer(i)
		for j := 0; j < k; j++ {
			if j == loop {
				book[p] = append(book[p], c20Addr(c20Near[i%len(c20Near)]))
			}
			a := "/ip4/10.1." + strconv.Itoa(i) + "." + strconv.Itoa(j) + "/tcp/" + strconv.Itoa(6000+j)
			if i == n-1 && j == k-1 && long {
				a = "/dns4/" + strings.Repeat("seed", 1250) + "/tcp/6668"
			}
			book[p] = append(book[p], c20Addr(a))
			want[a+"/p2p/"+p.String()] = true
		}
	}
	verifrt.Assert(m.SaveAddressBook(book) == nil, "C20-a-book-can-be-saved")
	m = c20Open(folder)
	got, err := m.RetrieveP2PAddresses()
	verifrt.Reach("retrieved")
	verifrt.Assert(err == nil, "C20-a-saved-book-is-read")
	verifrt.Assert(c20Is(got, want), "C20-exactly-the-non-loopback-addresses")
}
