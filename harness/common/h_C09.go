package common

import (
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C09: a whole session that comes to a halt: the members that are blamed are those whose share was not there.
// bound: key generation or keysign of committees of 3 (any set of the others missing) and 5 (one or all but one of them missing), this node at the beginning or at the end; 1 or 2 instances; the session stops in any round, with the missing shares of the first, the last or every instance not sent, or (broadcast, committee of 5) sent but confirmed by nobody
// outside: larger committees (see the harness of the blame manager)
// stub: tss-lib parties record what they are handed and accept it; signatures and SHA-256 are ideal
// limit: 300s
func VerifH_C09_Session() {
	sign := verifrt.Choose("keysign", 2) == 1
	n := []int{3, 5}[verifrt.Choose("committee", 2)]
	me := []int{0, n - 1}[verifrt.Choose("me", 2)]
	insts := []string{"7:0"}
	short := []bool{true}
	if sign && verifrt.Choose("instances", 2) == 1 {
		insts = []string{"7:0", "8:1"}
		short = [][]bool{{true, false}, {false, true}, {true, true}}[verifrt.Choose("incomplete", 3)]
	}
	typ, ver, rounds := verifProtocol(sign)
	total := messages.TSSKEYGENROUNDS
	if sign {
		total = messages.TSSKEYSIGNROUNDS
	}
	verifrt.Assert(len(rounds) == total, "C09-rounds")
	stop := verifrt.Choose("stops in", len(rounds))
	missing := make([]bool, n)
	some := 0
	if n == 3 {
		for m := range missing {
			if m != me && verifrt.Bool("missing") {
				missing[m] = true
				some++
			}
		}
	} else {
		one := []int{(me + 1) % n, (me + n - 1) % n}[verifrt.Choose("which", 2)]
		all := verifrt.Choose("all but one", 2) == 1
		for m := range missing {
			if m != me && (m == one) != all {
				missing[m] = true
				some++
			}
		}
	}
	s := verifNewSession(n, me, insts...)
	unconfirmed := n > 3 && !verifUnicast(rounds[stop]) && verifrt.Choose("unconfirmed", 2) == 1
	recorded := make([]bool, len(insts))
	for k, r := range rounds[:stop+1] {
		bcast := !verifUnicast(r)
		for m := 0; m < n; m++ {
			if m == me {
				continue
			}
			var batch []BulkWireMsg
			late := k == stop && missing[m]
			for i, in := range insts {
				if late && short[i] && !unconfirmed {
					continue
				}
				batch = append(batch, s.entry(m, r, bcast, in, []byte{byte(1 + i), byte(1 + m), byte(1 + r)}))
				if !late || !unconfirmed {
					recorded[i] = true
				}
			}
			if len(batch) == 0 {
				continue
			}
			w := s.share(m, r, bcast, batch...)
			s.deliver(typ, s.peers[m], verifJSON(w))
			if bcast && !(late && unconfirmed) {
				s.confirm(ver, m, w)
			}
			s.sent()
		}
	}
	// the instances that are not short (or nobody's) go on to the end
	blamed := false
	for i := range insts {
		// a message of which nothing was recorded is not part of the blame
		blamed = blamed || recorded[i] && (some > 0 || stop+1 < len(rounds))
	}
	nodes, unicast, err := s.t.GetBlameMgr().TssMissingShareBlame(total)
	verifrt.Assert(err == nil, "C09-blame-computed")
	verifrt.Assert((len(nodes) > 0) == blamed, "C09-exactly-the-members-missing-in-the-first-incomplete-round")
	if !blamed {
		verifrt.Reach("nobody")
		return
	}
	verifrt.Reach("blamed")
	want := make([]bool, n)
	uni := false
	for i := range insts {
		if !recorded[i] {
			continue
		}
		at := stop
		incomplete := some > 0 && (short[i] || unconfirmed)
		if !incomplete {
			at++
		}
		if at == len(rounds) {
			continue
		}
		if sign && at < 5 || !sign && at == 1 {
			uni = true
		}
		for m := range want {
			if m != me && (!incomplete || missing[m]) {
				want[m] = true
			}
		}
	}
	for m := range want {
		times := 0
		for _, x := range nodes {
			if x.Pubkey == s.keys[m] {
				times++
			}
		}
		verifrt.Assert((times > 0) == want[m], "C09-exactly-the-members-missing-in-the-first-incomplete-round")
	}
	verifrt.Assert(unicast == uni, "C09-unicast-flag")
}
