package common

import (
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

func c25Done(s *verifSession) bool {
	select {
	case <-s.t.GetTaskDone():
		return true
	default:
		return false
	}
}

// C25: the session is finished when every other member reported, and not before.
// bound: committees of two to four; 4 (quick) / 5 (thorough) reports of any member but this node, in any order and repeated, each a report that the task is done or that it is not (symbolic flag), or undecodable
func VerifH_C25_Reports() {
	n := 2 + verifrt.Choose("committee", 3)
	k := 4
	if verifrt.Thorough() {
		k = 5
	}
	s := verifNewSession(n, 0, "m")
	done := map[int]bool{}
	for i := 0; i < k; i++ {
		m := 1
		if n > 2 {
			m += verifrt.Choose("reporter", n-1)
		}
		again := done[m]
		flag := false
		var err error
		if verifrt.Choose("report", 2) == 0 {
			flag = verifrt.Bool("done")
			err = s.deliver(messages.TSSTaskDone, s.peers[m], verifJSON(&messages.TssTaskNotifier{TaskDone: flag}))
			if flag {
				done[m] = true
			}
		} else {
			s.deliver(messages.TSSTaskDone, s.peers[m], []byte("{"))
		}
		if flag && again {
			verifrt.Reach("repeated")
			verifrt.Assert(err != nil, "C25-repeated-report-is-refused")
		}
		if len(done) == n-1 {
			verifrt.Reach("finished")
			verifrt.Assert(c25Done(s), "C25-finished-when-all-others-reported")
		} else {
			verifrt.Reach("waits")
			verifrt.Assert(!c25Done(s), "C25-not-finished-before-all-others-reported")
		}
	}
}

// C25: reports of peers outside the committee.
// bound: committees of two to four; the reports of the other members, of one or two strangers and possibly of this node itself, each peer once, in any order
// outside: repeated reports (see the members)
func VerifH_C25_Strangers() {
	n := 2 + verifrt.Choose("committee", 3)
	s := verifNewSession(n, 0, "m")
	_, k := verifKey(byte(n + 2))
	p2, err := conversion.GetPeerIDFromPubKey(k)
	verifrt.Assert(err == nil, "setup")
	from := append(append([]peer.ID(nil), s.peers[1:]...), s.other, p2, s.peers[0])
	from = from[:n+verifrt.Choose("strangers", 3)]
	members, early := 0, false
	for len(from) > 0 {
		i := verifrt.Choose("reporter", len(from))
		p := from[i]
		from = append(append([]peer.ID(nil), from[:i]...), from[i+1:]...)
		s.deliver(messages.TSSTaskDone, p, verifJSON(&messages.TssTaskNotifier{TaskDone: true}))
		for _, m := range s.peers[1:] {
			if m == p {
				members++
			}
		}
		early = early || members < n-1 && c25Done(s)
	}
	verifrt.Reach("finished")
	verifrt.Assert(members == n-1 && c25Done(s), "C25-finished-when-all-others-reported")
	verifrt.Assert(!early, "C25-only-members-count")
}

// C25: what a member sends when its task is done is a report for the others.
// bound: committee of three, both nodes' views
func VerifH_C25_Notify() {
	s := verifNewSession(3, 0, "m")
	r := verifNewSession(3, 1+verifrt.Choose("receiver", 2), "m")
	verifrt.Assert(s.t.NotifyTaskDone() == nil, "C25-report-sent")
	l := s.sent()
	verifrt.Assert(len(l) == 1 && len(l[0].PeersID) == 2, "C25-report-sent-to-all-others")
	verifrt.Assert(c11Same(l[0].PeersID, s.peers[1:]), "C25-report-sent-to-all-others")
	verifrt.Assert(l[0].WrappedMessage.MsgID == verifMsgID && l[0].WrappedMessage.MessageType == messages.TSSTaskDone, "C25-report-for-this-session")
	me := 1
	if r.t.GetLocalPeerID() == s.peers[2].String() {
		me = 2
	}
	verifrt.Assert(r.deliver(l[0].WrappedMessage.MessageType, s.peers[0], l[0].WrappedMessage.Payload) == nil, "C25-report-accepted")
	verifrt.Assert(!c25Done(r), "C25-not-finished-before-all-others-reported")
	verifrt.Assert(r.deliver(l[0].WrappedMessage.MessageType, s.peers[3-me], l[0].WrappedMessage.Payload) == nil, "C25-report-accepted")
	verifrt.Reach("finished")
	verifrt.Assert(c25Done(r), "C25-finished-when-all-others-reported")
}

// C25: large committees.
// bound: committees of 5, 9, 10 and 13, this node at the beginning, in the middle or at the end; the others report in ascending or descending order, each once or each twice (at once, or everybody once more except the last); before any of them an undecodable report, one that the task is not done, or none
func VerifH_C25_Large() {
	n := []int{5, 9, 10, 13}[verifrt.Choose("committee", 4)]
	me := []int{0, n / 2, n - 1}[verifrt.Choose("me", 3)]
	s := verifNewSession(n, me, "m")
	down := verifrt.Choose("descending", 2) == 1
	var order []int
	for i := range s.peers {
		m := i
		if down {
			m = n - 1 - i
		}
		if m != me {
			order = append(order, m)
		}
	}
	last := order[len(order)-1]
	switch verifrt.Choose("repeated", 3) {
	case 1:
		var l []int
		for _, m := range order {
			l = append(l, m, m)
		}
		order = l
	case 2:
		order = append(append([]int(nil), order[:len(order)-1]...), order...)
	}
	odd := verifrt.Choose("other report", 3)
	at := verifrt.Choose("before", 2)
	seen := map[int]bool{}
	for i, m := range order {
		if i == at*(len(order)-1) {
			if odd == 1 {
				s.deliver(messages.TSSTaskDone, s.peers[last], []byte("{"))
			} else if odd == 2 {
				s.deliver(messages.TSSTaskDone, s.peers[last], verifJSON(&messages.TssTaskNotifier{}))
			}
		}
		verifrt.Assert(len(seen) == n-1 || !c25Done(s), "C25-not-finished-before-all-others-reported")
		again := seen[m]
		err := s.deliver(messages.TSSTaskDone, s.peers[m], verifJSON(&messages.TssTaskNotifier{TaskDone: true}))
		seen[m] = true
		verifrt.Assert((err != nil) == again, "C25-repeated-report-is-refused")
	}
	verifrt.Reach("finished")
	verifrt.Assert(c25Done(s), "C25-finished-when-all-others-reported")
}
