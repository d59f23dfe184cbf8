package p2p

import (
	"errors"

	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C21: any sequence of adds and releases resets each stream exactly when its
// session (or, for unknown ones, any session) is released, once.
// bound: sequences of 4 (quick) / 5 (thorough) operations, resetting a stream fails or not; every session id symbolic (the ids differ in one byte, at the beginning, in the middle or at the end) or UNKNOWN
// outside: longer sequences
func VerifH_C21_Sequences() {
	n := 4
	if verifrt.Thorough() {
		n = 5
	}
	sm := NewStreamMgr()
	type ent struct {
		s       *verifnet.Stream
		id      string
		unknown bool
		want    int
	}
	at := verifnet.Places[verifrt.Choose("ids differ at", len(verifnet.Places))]
	var es []*ent
	var broken error
	if verifrt.Choose("resets fail", 2) == 1 {
		broken = errors.New("stream is gone")
	}
	released := false
	for i := 0; i < n; i++ {
		unknown := false
		id := ""
		switch verifrt.Choose("op", 3) {
		case 0:
			id = verifnet.AlikeSession(at, verifrt.Str("id", 1))
		case 1:
			unknown = true
			id = "UNKNOWN"
		case 2:
			id = verifnet.AlikeSession(at, verifrt.Str("id", 1))
			sm.ReleaseStream(id)
			for _, e := range es {
				if e.want == 0 && (e.unknown || e.id == id) {
					e.want = 1
					released = true
				}
			}
			continue
		}
		e := &ent{s: &verifnet.Stream{ResetErr: broken}, id: id, unknown: unknown}
		sm.AddStream(id, e.s)
		es = append(es, e)
	}
	if released {
		verifrt.Reach("released")
	}
	for _, e := range es {
		if e.want == 1 {
			verifrt.Assert(e.s.Resets >= 1, "C21-released-stream-is-reset")
			verifrt.Assert(e.s.Resets <= 1, "C21-stream-reset-only-once")
		} else {
			verifrt.Assert(e.s.Resets == 0, "C21-other-streams-untouched")
		}
	}
}

// C21: a stream added, or a second release started, while a release is under
// way: nothing is lost, nothing reset twice.
// bound: one release of a session with 0..2 registered streams and 0..1 unknown ones, concurrent with one add (same session, UNKNOWN, other) and optionally a second release (same or other session); every interleaving at locks, channels and stream resets with up to 3 (quick) / 5 (thorough) preemptions
func VerifH_C21_Concurrent() {
	sm := NewStreamMgr()
	mk := func() *verifnet.Stream {
		s := &verifnet.Stream{}
		gate := make(chan bool, 1)
		s.OnReset = func() { gate <- true; <-gate } // a scheduling point
		return s
	}
	var a, u []*verifnet.Stream
	for i := verifrt.Choose("registered", 3); i > 0; i-- {
		s := mk()
		a = append(a, s)
		sm.AddStream("a", s)
	}
	for i := verifrt.Choose("unknown", 2); i > 0; i-- {
		s := mk()
		u = append(u, s)
		sm.AddStream("UNKNOWN", s)
	}
	other := mk()
	sm.AddStream("b", other)
	late := mk()
	lateID := []string{"a", "UNKNOWN", "b"}[verifrt.Choose("late", 3)]
	second := []string{"", "a", "c"}[verifrt.Choose("second", 3)]
	pre := 3
	if verifrt.Thorough() {
		pre = 5
	}
	verifrt.Races()
	verifrt.Sched(pre)
	go sm.ReleaseStream("a")
	if second != "" {
		go sm.ReleaseStream(second)
	}
	go sm.AddStream(lateID, late)
	verifrt.Quiesce()
	verifrt.NoSched()
	verifrt.Assert(late.Resets <= 1, "C21-stream-reset-only-once")
	for _, s := range a {
		verifrt.Assert(s.Resets == 1, "C21-released-stream-is-reset")
	}
	for _, s := range u {
		verifrt.Assert(s.Resets == 1, "C21-unknown-stream-is-reset-once")
	}
	verifrt.Assert(other.Resets == 0, "C21-other-streams-untouched")
	if lateID == "b" {
		verifrt.Assert(late.Resets == 0, "C21-other-streams-untouched")
	}
	if late.Resets == 0 {
		verifrt.Reach("late not yet reset")
	} else {
		verifrt.Reach("late reset")
	}
	sm.ReleaseStream(lateID)
	verifrt.Assert(late.Resets == 1, "C21-late-stream-is-not-lost")
	for _, s := range a {
		verifrt.Assert(s.Resets == 1, "C21-stream-reset-only-once")
	}
	for _, s := range u {
		verifrt.Assert(s.Resets == 1, "C21-stream-reset-only-once")
	}
}

// c21Stream is a stream; with an odd number, resetting it reports an error.
func c21Stream(i int) *verifnet.Stream {
	s := &verifnet.Stream{}
	if i%2 == 1 {
		s.ResetErr = errors.New("stream is gone")
	}
	return s
}

// C21: sessions with many streams.
// bound: 0, 1, 2, 7 or 40 streams of a session, of another one and of unknown ones each (every other one cannot be reset properly), added session by session or in turn; the session or the other one released first
func VerifH_C21_Many() {
	sm := NewStreamMgr()
	sizes := []int{0, 1, 2, 7, 40}
	ids := []string{verifnet.Session, verifnet.AlikeSession(63, "0"), "UNKNOWN"}
	var count [3]int
	var ss [3][]*verifnet.Stream
	most := 0
	for i := range count {
		count[i] = sizes[verifrt.Choose("streams", len(sizes))]
		if count[i] > most {
			most = count[i]
		}
	}
	if verifrt.Choose("in turn", 2) == 1 {
		for j := 0; j < most; j++ {
			for i := range ids {
				if j < count[i] {
					s := c21Stream(j)
					ss[i] = append(ss[i], s)
					sm.AddStream(ids[i], s)
				}
			}
		}
	} else {
		for i := range ids {
			for j := 0; j < count[i]; j++ {
				s := c21Stream(j)
				ss[i] = append(ss[i], s)
				sm.AddStream(ids[i], s)
			}
		}
	}
	first := verifrt.Choose("first", 2)
	sm.ReleaseStream(ids[first])
	verifrt.Reach("released")
	for i := range ids {
		for _, s := range ss[i] {
			if i == 1-first {
				verifrt.Assert(s.Resets == 0, "C21-other-streams-untouched")
			} else {
				verifrt.Assert(s.Resets == 1, "C21-released-stream-is-reset")
			}
		}
	}
	sm.ReleaseStream(ids[first])
	sm.ReleaseStream(ids[1-first])
	for i := range ids {
		for _, s := range ss[i] {
			verifrt.Assert(s.Resets >= 1, "C21-released-stream-is-reset")
			verifrt.Assert(s.Resets <= 1, "C21-stream-reset-only-once")
		}
	}
}
