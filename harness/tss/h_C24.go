package tss

import (
	"time"

	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/rs/zerolog"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

const (
	c24Old = protocol.ID("/p2p/join-party")
	c24New = protocol.ID("/p2p/join-party-leader")
)

func c24Digits(name string) (string, int) {
	n := 1
	if verifrt.Bool(name + " has two digits") {
		n = 2
	}
	b := verifrt.Bytes(name, n)
	v := 0
	for i := range b {
		verifrt.Assume(b[i] >= '0' && b[i] <= '9')
		v = v*10 + int(b[i]-'0')
	}
	if n == 2 {
		verifrt.Assume(b[0] != '0')
	}
	return string(b), v
}

// c24Join runs one join with the given version and reports which protocol it spoke.
func c24Join(version string) (old, new bool, leader string, err error) {
	conversion.SetupBech32Prefix()
	h := verifnet.NewHost(verifnet.Peer(1))
	h.Opened = func(s *verifnet.Stream) {
		// one join attempt tells the protocol; what the scheduler does next does not matter
		verifrt.NoSched()
		if s.Proto == c24Old {
			old = true
		} else if s.Proto == c24New {
			new = true
		} else {
			verifrt.Assert(false, "C24-known-join-protocol")
		}
	}
	s := &TssServer{logger: zerolog.Nop(), partyCoordinator: p2p.NewPartyCoordinator(h, time.Second)}
	_, leader, err = s.joinParty("aabb", version, 10, append([]string(nil), verifnet.Keys[:3]...), 2, make(chan string, 1))
	return
}

// C24: which join protocol a request speaks depends on the numeric comparison of its version only.
// bound: versions 0.M.P and 1.M.P with M and P every number 0..99, three signers of which this node is one, nobody answers
// outside: pre-release versions here (see C24 in conversion), other committee sizes
// stub: libp2p host records the protocol of every stream opened
func VerifH_C24_Selects() {
	verifrt.TimersAny(1)
	major := verifrt.Choose("major", 2)
	minor, m := c24Digits("minor")
	patch, _ := c24Digits("patch")
	version := "0." + minor + "." + patch
	if major == 1 {
		version = "1." + minor + "." + patch
	}
	old, new, leader, err := c24Join(version)
	verifrt.Assert(err != nil, "C24-nobody-joined")
	wantOld := major == 0 && m < 14
	if wantOld {
		verifrt.Assert(!new && leader == "NONE", "C24-lower-version-uses-the-older-protocol")
		if old {
			verifrt.Reach("older protocol")
		}
	} else {
		verifrt.Assert(!old && leader != "NONE" && leader != "", "C24-equal-or-higher-version-uses-the-leader")
		if new {
			verifrt.Reach("leader protocol")
		}
	}
}

// C24: a malformed version starts no join.
// bound: every string of 0..2 bytes, and 0.14.X with X any byte that is no digit
// outside: longer malformed versions
// stub: libp2p host records the protocol of every stream opened
func VerifH_C24_MalformedJoin() {
	var version string
	switch verifrt.Choose("form", 3) {
	case 0:
		version = verifrt.Str("version", verifrt.Choose("len", 3))
		for i := 0; i < len(version); i++ {
			verifrt.Assume(version[i] < 0x80)
		}
		if len(version) >= 1 {
			// "1", "v1", "12" are complete versions for the semver library
			verifrt.Assume(version[len(version)-1] < '0' || version[len(version)-1] > '9')
		}
	case 1:
		b := verifrt.Byte("digit")
		verifrt.Assume(b < 0x80 && (b < '0' || b > '9'))
		version = "0.14." + string([]byte{b})
	default:
		version = "0.14.0.1"
	}
	verifrt.Reach("malformed")
	old, new, _, err := c24Join(version)
	verifrt.Assert(err != nil && !old && !new, "C24-malformed-version-starts-no-join")
}
