package keysign

import (
	"errors"
	"time"

	tsslibcommon "github.com/binance-chain/tss-lib/common"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

type c13Got struct {
	sigs []*tsslibcommon.ECSignature
	err  error
}

func c13Wait(sn *SignatureNotifier, id string, msgs [][]byte, pool string, stop chan string) chan c13Got {
	r := make(chan c13Got, 1)
	go func() {
		s, err := sn.WaitForSignature(id, msgs, pool, time.Second, stop)
		r <- c13Got{s, err}
	}()
	verifrt.Quiesce()
	return r
}

func c13Msgs(n int) [][]byte {
	var msgs [][]byte
	for i := 0; i < n; i++ {
		m := make([]byte, 32)
		m[0], m[31] = 7, verifrt.Byte("message")
		msgs = append(msgs, m)
	}
	return msgs
}

func c13SameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	var d byte
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

func c13SameSigs(got, want []*tsslibcommon.ECSignature) bool {
	if len(got) != len(want) {
		return false
	}
	ok := true
	for i := range got {
		g, w := got[i], want[i]
		ok = verifrt.And(ok, c13SameBytes(g.R, w.R), c13SameBytes(g.S, w.S), c13SameBytes(g.Signature, w.Signature),
			c13SameBytes(g.SignatureRecovery, w.SignatureRecovery), c13SameBytes(g.M, w.M))
	}
	return ok
}

// C13: a received set is accepted exactly when it has one verifying signature per message; otherwise the node keeps waiting.
// bound: 1..2 requested messages with a symbolic byte each (equal or different), sets of 0..3 signatures, each by the pool key or another key over a message with a symbolic byte, or with R or S off by a symbolic value, or without a signature field; then the correct set
// outside: more messages; ECDSA itself (ideal signatures: a signature verifies for the key and message it was made for only)
// stub: libp2p streams; ECDSA signing and verification are ideal
// limit: 200s
func VerifH_C13_Set() {
	host := verifnet.NewHost(verifnet.Peer(0))
	sn := NewSignatureNotifier(host)
	handle := host.Handlers["/p2p/signatureNotifier"]
	pool, other := verifNewPool(1), verifNewPool(2)
	n := 1 + verifrt.Choose("messages", 2)
	msgs := c13Msgs(n)
	ret := c13Wait(sn, "a", msgs, pool.name, make(chan string))
	k := verifrt.Choose("received", 4)
	kinds := 5
	if k == 3 && !verifrt.Thorough() {
		kinds = 1
	}
	good := k == n
	var want []*tsslibcommon.ECSignature
	var raw [][]byte
	for i := 0; i < k; i++ {
		m := make([]byte, 32)
		m[0], m[31] = 7, verifrt.Byte("signed")
		s := pool.sign(m)
		ok := true
		switch verifrt.Choose("kind", kinds) {
		case 1:
			s = other.sign(m)
			ok = false
		case 2:
			d := verifrt.Byte("R changed by")
			r := append([]byte(nil), s.R...)
			r[1] ^= d
			s.R = r
			ok = d == 0
		case 3:
			d := verifrt.Byte("S changed by")
			r := append([]byte(nil), s.S...)
			r[len(r)-1] ^= d
			s.S = r
			ok = d == 0
		case 4:
			s.Signature = nil
			ok = false
		}
		s.SignatureRecovery = verifrt.Bytes("recovery", 1)
		if i < n {
			ok = verifrt.And(ok, m[31] == msgs[i][31])
		}
		good = verifrt.And(good, ok)
		want = append(want, s)
		raw = append(raw, verifMarshalSig(s))
	}
	handle(verifSigStream(verifnet.Peer(1), "a", messages.KeysignSignature_Success, raw))
	verifrt.Quiesce()
	select {
	case r := <-ret:
		verifrt.Reach("accepted")
		verifrt.Assert(good, "C13-accepts-only-the-complete-verified-set")
		verifrt.Assert(r.err == nil && c13SameSigs(r.sigs, want), "C13-delivered-unchanged")
		return
	default:
	}
	verifrt.Assert(!good, "C13-correct-set-is-accepted")
	verifrt.Reach("refused")
	want, raw = nil, nil
	for _, m := range msgs {
		s := pool.sign(m)
		want = append(want, s)
		raw = append(raw, verifMarshalSig(s))
	}
	handle(verifSigStream(verifnet.Peer(2), "a", messages.KeysignSignature_Success, raw))
	verifrt.Quiesce()
	select {
	case r := <-ret:
		verifrt.Assert(r.err == nil && c13SameSigs(r.sigs, want), "C13-delivered-unchanged")
	default:
		verifrt.Assert(false, "C13-keeps-waiting-after-a-refused-set")
	}
}

// C13: a set reaches the waiter of its request only; failures, undecodable data and the end of the wait are handled.
// bound: 1..2 waiters with different ids, messages and pool keys, 2 (quick) / 3 (thorough) notifications for ids with any character at the place where those of the waiters differ (the beginning, the middle or the end), each a correct set for one of the waiters, a failure notice, an undecodable signature, an undecodable message or a truncated stream
// outside: more than two concurrent requests
// stub: libp2p streams; ECDSA signing and verification are ideal
// limit: 200s
func VerifH_C13_Routing() {
	host := verifnet.NewHost(verifnet.Peer(0))
	sn := NewSignatureNotifier(host)
	handle := host.Handlers["/p2p/signatureNotifier"]
	at := verifnet.Places[verifrt.Choose("ids differ at", len(verifnet.Places))]
	ids := []string{verifnet.AlikeSession(at, "a"), verifnet.AlikeSession(at, "b")}
	pools := []verifPool{verifNewPool(1), verifNewPool(2)}
	sets := make([][]*tsslibcommon.ECSignature, 2)
	raws := make([][][]byte, 2)
	rets := make([]chan c13Got, 2)
	stops := []chan string{make(chan string, 1), make(chan string, 1)}
	done := make([]bool, 2)
	waiters := 1 + verifrt.Choose("waiters", 2)
	for i := 0; i < waiters; i++ {
		m := c13Msgs(1)
		m[0][1] = byte(i)
		s := pools[i].sign(m[0])
		sets[i] = []*tsslibcommon.ECSignature{s}
		raws[i] = [][]byte{verifMarshalSig(s)}
		rets[i] = c13Wait(sn, ids[i], m, pools[i].name, stops[i])
	}
	k := 2
	if verifrt.Thorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		c := verifrt.Str("id", 1)
		verifrt.Assume(c[0] < 0x80)
		id := verifnet.AlikeSession(at, c)
		w := verifrt.Choose("set of", waiters)
		var st *verifnet.Stream
		fits := false
		switch verifrt.Choose("notice", 6) {
		case 0:
			st = verifSigStream(verifnet.Peer(1), id, messages.KeysignSignature_Success, raws[w])
			fits = id == ids[w]
		case 1:
			st = verifSigStream(verifnet.Peer(1), id, messages.KeysignSignature_Failed, raws[w])
		case 2:
			st = verifSigStream(verifnet.Peer(1), id, messages.KeysignSignature_Success, nil)
		case 3:
			st = verifSigStream(verifnet.Peer(1), id, messages.KeysignSignature_Success, [][]byte{{0xff, 0xff}})
		case 4:
			st = verifFrameStream(verifnet.Peer(1), []byte{0xff, 0xff, 0xff})
		default:
			st = verifSigStream(verifnet.Peer(1), id, messages.KeysignSignature_Success, raws[w])
			st.In = st.In[:len(st.In)-1]
		}
		handle(st)
		verifrt.Quiesce()
		for j := 0; j < waiters; j++ {
			if done[j] {
				continue
			}
			select {
			case r := <-rets[j]:
				verifrt.Reach("delivered")
				verifrt.Assert(j == w && fits, "C13-delivered-to-the-waiter-of-that-request-only")
				verifrt.Assert(r.err == nil && c13SameSigs(r.sigs, sets[j]), "C13-delivered-unchanged")
				done[j] = true
			default:
				verifrt.Assert(!(j == w && fits), "C13-correct-set-is-accepted")
			}
		}
	}
	for j := 0; j < waiters; j++ {
		if done[j] {
			continue
		}
		if verifrt.Bool("generated here") {
			stops[j] <- "signature generated"
			r := <-rets[j]
			verifrt.Assert(r.err == p2p.ErrSigGenerated && r.sigs == nil, "C13-stops-waiting-when-the-signature-was-generated")
		} else {
			r := <-rets[j]
			verifrt.Reach("timed out")
			verifrt.Assert(r.err != nil && len(r.sigs) == 0, "C13-timeout-is-an-error")
		}
	}
}

// C13: several peers send the result at once; the waiter gets one of the sets and nobody is left waiting.
// bound: one waiter, the set from three peers at once (thorough: one of them a failure notice or a set by another key instead), every interleaving with up to one (thorough: two) preemptions
// outside: more peers, more preemptions
// stub: libp2p streams; ECDSA signing and verification are ideal
// limit: 200s
func VerifH_C13_Several() {
	host := verifnet.NewHost(verifnet.Peer(0))
	sn := NewSignatureNotifier(host)
	handle := host.Handlers["/p2p/signatureNotifier"]
	pool, other := verifNewPool(1), verifNewPool(2)
	m := c13Msgs(1)[0]
	s := pool.sign(m)
	set := [][]byte{verifMarshalSig(s)}
	ret := c13Wait(sn, "a", [][]byte{m}, pool.name, make(chan string))
	bad := 0
	if verifrt.Thorough() {
		bad = verifrt.Choose("bad one", 3)
	}
	done := make(chan bool, 3)
	var sts []*verifnet.Stream
	for i := 1; i <= 3; i++ {
		st := verifSigStream(verifnet.Peer(i), "a", messages.KeysignSignature_Success, set)
		if i == 2 && bad == 1 {
			st = verifSigStream(verifnet.Peer(i), "a", messages.KeysignSignature_Failed, nil)
		}
		if i == 2 && bad == 2 {
			st = verifSigStream(verifnet.Peer(i), "a", messages.KeysignSignature_Success, [][]byte{verifMarshalSig(other.sign(m))})
		}
		sts = append(sts, st)
	}
	pre := 1
	if verifrt.Thorough() {
		pre = 2
	}
	verifrt.Sched(pre)
	for i := range sts {
		st := sts[i]
		go func() {
			handle(st)
			done <- true
		}()
	}
	verifrt.Quiesce()
	verifrt.NoSched()
	select {
	case r := <-ret:
		verifrt.Reach("delivered")
		verifrt.Assert(r.err == nil && c13SameSigs(r.sigs, []*tsslibcommon.ECSignature{s}), "C13-delivered-unchanged")
	default:
		verifrt.Assert(false, "C13-correct-set-is-accepted")
	}
	verifrt.Assert(len(done) == 3, "C13-no-peer-left-waiting")
}

// C13: a pool key that is no key of the curve accepts nothing.
// bound: 3 undecodable pool keys and one of another curve; a correct set by the pool's real key, one by another key
// stub: libp2p streams; ECDSA signing and verification are ideal
func VerifH_C13_BadPoolKey() {
	host := verifnet.NewHost(verifnet.Peer(0))
	sn := NewSignatureNotifier(host)
	handle := host.Handlers["/p2p/signatureNotifier"]
	pool := verifNewPool(1)
	edwards := "thorpub1zcjduepqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq5nlcq8"
	names := []string{"thorpub1addwn", pool.name[:len(pool.name)-1], "pool", edwards}
	name := names[verifrt.Choose("pool key", len(names))]
	m := c13Msgs(1)[0]
	ret := c13Wait(sn, verifnet.Session, [][]byte{m}, name, make(chan string))
	signer := pool
	if verifrt.Bool("another key") {
		signer = verifNewPool(2)
	}
	handle(verifSigStream(verifnet.Peer(1), verifnet.Session, messages.KeysignSignature_Success, [][]byte{verifMarshalSig(signer.sign(m))}))
	verifrt.Quiesce()
	r := <-ret
	verifrt.Reach("not accepted")
	verifrt.Assert(r.err != nil && len(r.sigs) == 0, "C13-accepts-only-the-complete-verified-set")
}

// C13: what the signers send is what the others accept: the complete set, to everybody else, once; a failure notice stays one.
// bound: committees of 2, 3 or 9 with this node at the beginning, in the middle or at the end of the list; sets of 1, 2 or 20 signatures over messages with a symbolic byte, or a failure; one of the peers (first or last) down, never answering or breaking the stream; all notices handed to one waiting peer
// outside: other list sizes
// stub: libp2p streams; ECDSA signing and verification are ideal
func VerifH_C13_Sent() {
	n := []int{2, 3, 9}[verifrt.Choose("committee", 3)]
	me := []int{0, n / 2, n - 1}[verifrt.Choose("me", 3)]
	host := verifnet.NewHost(verifnet.ManyPeer(me))
	sn := NewSignatureNotifier(host)
	bad, how := -1, 0
	if how = verifrt.Choose("peer is", 4); how > 0 {
		bad = []int{0, n - 1}[verifrt.Choose("which", 2)]
		verifrt.Assume(bad != me)
	}
	host.Hang = map[peer.ID]bool{}
	switch how {
	case 1:
		host.Down[verifnet.ManyPeer(bad)] = true
	case 2:
		host.Hang[verifnet.ManyPeer(bad)] = true
	}
	host.Open = func(p peer.ID, proto protocol.ID) (*verifnet.Stream, error) {
		s := &verifnet.Stream{Peer: p, Proto: proto, In: verifFrameStream(p, []byte("done")).In}
		if how == 3 && p == verifnet.ManyPeer(bad) {
			s.WriteFn = func([]byte) (int, error) { return 0, errors.New("reset") }
		}
		return s, nil
	}
	pool := verifNewPool(1)
	k := []int{1, 2, 20}[verifrt.Choose("messages", 3)]
	msgs := c13Msgs(1)
	for len(msgs) < k {
		msgs = append(msgs, append([]byte{8, byte(len(msgs))}, make([]byte, 30)...))
	}
	var set []*tsslibcommon.ECSignature
	for _, m := range msgs {
		set = append(set, pool.sign(m))
	}
	var peers []peer.ID
	for i := 0; i < n; i++ {
		peers = append(peers, verifnet.ManyPeer(i))
	}
	id := verifnet.Session
	failed := verifrt.Bool("failed")
	start := time.Now()
	if failed {
		sn.BroadcastFailed(id, peers)
	} else {
		sn.BroadcastSignature(id, set, peers)
	}
	verifrt.Assert(time.Since(start) < 5*time.Second, "C13-one-silent-peer-does-not-hold-up-the-others")
	got := make([]int, n)
	for _, s := range host.Streams {
		verifrt.Assert(s.Proto == "/p2p/signatureNotifier" && s.Peer != host.Me, "C13-sent-to-the-others-only")
		for i, p := range peers {
			if s.Peer == p {
				got[i]++
			}
		}
		if how == 3 && s.Peer == verifnet.ManyPeer(bad) {
			continue
		}
		// a peer of it
		h2 := verifnet.NewHost(s.Peer)
		other := NewSignatureNotifier(h2)
		ret := c13Wait(other, id, msgs, pool.name, make(chan string))
		h2.Handlers["/p2p/signatureNotifier"](&verifnet.Stream{Peer: host.Me, In: s.Out})
		verifrt.Quiesce()
		select {
		case r := <-ret:
			verifrt.Reach("accepted")
			verifrt.Assert(!failed, "C13-failure-notice-is-no-set")
			verifrt.Assert(r.err == nil && c13SameSigs(r.sigs, set), "C13-delivered-unchanged")
		default:
			verifrt.Assert(failed, "C13-sent-set-is-accepted")
		}
	}
	for i := range got {
		if i == me || i == bad && how < 3 {
			verifrt.Assert(got[i] == 0, "C13-sent-to-the-others-only")
		} else {
			verifrt.Assert(got[i] == 1, "C13-sent-to-everybody-else-once")
		}
	}
}

// C13: messages of any length are verified.
// bound: one or two messages of 1, 31, 32, 33, 64 or 100 bytes with a symbolic first byte; the last signature by the pool key or another one over a message of the same length with a symbolic first byte, or with R changed by a symbolic value
// outside: messages of more than 32 bytes that differ in the bytes ECDSA does not use
// stub: libp2p streams; ECDSA signing and verification are ideal
func VerifH_C13_Lengths() {
	host := verifnet.NewHost(verifnet.Peer(0))
	sn := NewSignatureNotifier(host)
	handle := host.Handlers["/p2p/signatureNotifier"]
	pool, other := verifNewPool(1), verifNewPool(2)
	size := []int{1, 31, 32, 33, 64, 100}[verifrt.Choose("length", 6)]
	mk := func(what string) []byte {
		m := make([]byte, size)
		for i := range m {
			m[i] = byte(i)
		}
		m[0] = verifrt.Byte(what)
		verifrt.Assume(m[0] != 0)
		return m
	}
	n := 1 + verifrt.Choose("messages", 2)
	var msgs, raw [][]byte
	var want []*tsslibcommon.ECSignature
	for i := 0; i < n; i++ {
		msgs = append(msgs, mk("message"))
	}
	ret := c13Wait(sn, "a", msgs, pool.name, make(chan string))
	good := true
	for i := 0; i < n; i++ {
		m := msgs[i]
		s := pool.sign(m)
		if i == n-1 {
			m = mk("signed")
			good = m[0] == msgs[i][0]
			s = pool.sign(m)
			switch verifrt.Choose("kind", 3) {
			case 1:
				s, good = other.sign(m), false
			case 2:
				d := verifrt.Byte("R changed by")
				r := append([]byte(nil), s.R...)
				r[1] ^= d
				s.R = r
				good = verifrt.And(good, d == 0)
			}
		}
		want = append(want, s)
		raw = append(raw, verifMarshalSig(s))
	}
	handle(verifSigStream(verifnet.Peer(1), "a", messages.KeysignSignature_Success, raw))
	verifrt.Quiesce()
	select {
	case r := <-ret:
		verifrt.Reach("accepted")
		verifrt.Assert(good, "C13-accepts-only-the-complete-verified-set")
		verifrt.Assert(r.err == nil && c13SameSigs(r.sigs, want), "C13-delivered-unchanged")
	default:
		verifrt.Reach("refused")
		verifrt.Assert(!good, "C13-correct-set-is-accepted")
	}
}

// C13: waiting again for the same request starts from nothing.
// bound: two waits for one id, each for a message with a symbolic byte and of either of two pools; the first one ends with its set, a stop or a timeout; in between, and in the second wait before its own set, the set of the first wait, a failure notice or nothing arrives
// stub: libp2p streams; ECDSA signing and verification are ideal
func VerifH_C13_Again() {
	host := verifnet.NewHost(verifnet.Peer(0))
	sn := NewSignatureNotifier(host)
	handle := host.Handlers["/p2p/signatureNotifier"]
	pools := []verifPool{verifNewPool(1), verifNewPool(2)}
	sigFor := func(p verifPool, m []byte) ([]*tsslibcommon.ECSignature, [][]byte) {
		s := p.sign(m)
		return []*tsslibcommon.ECSignature{s}, [][]byte{verifMarshalSig(s)}
	}
	m1, m2 := c13Msgs(1), c13Msgs(1)
	second := pools[verifrt.Choose("second pool", 2)]
	same := second.name == pools[0].name && m1[0][31] == m2[0][31]
	want1, raw1 := sigFor(pools[0], m1[0])
	want2, raw2 := sigFor(second, m2[0])
	stray := func(k int) bool { // whether the second wait is served by it
		switch k {
		case 1:
			handle(verifSigStream(verifnet.Peer(1), "a", messages.KeysignSignature_Success, raw1))
			verifrt.Quiesce()
			return same
		case 2:
			handle(verifSigStream(verifnet.Peer(2), "a", messages.KeysignSignature_Failed, nil))
			verifrt.Quiesce()
		}
		return false
	}
	stop := make(chan string)
	ret := c13Wait(sn, "a", m1, pools[0].name, stop)
	end := verifrt.Choose("first ends by", 3)
	switch end {
	case 0:
		handle(verifSigStream(verifnet.Peer(1), "a", messages.KeysignSignature_Success, raw1))
	case 1:
		close(stop)
	}
	r := <-ret
	if end == 0 {
		verifrt.Assert(r.err == nil && c13SameSigs(r.sigs, want1), "C13-delivered-unchanged")
	} else {
		verifrt.Assert(r.err != nil && len(r.sigs) == 0, "C13-accepts-only-the-complete-verified-set")
	}
	verifrt.Quiesce()
	stray(verifrt.Choose("between", 3))
	ret = c13Wait(sn, "a", m2, second.name, make(chan string))
	if stray(verifrt.Choose("first arrives", 3)) {
		verifrt.Reach("same set")
		r = <-ret
		verifrt.Assert(r.err == nil && c13SameSigs(r.sigs, want1), "C13-delivered-unchanged")
		return
	}
	select {
	case <-ret:
		verifrt.Assert(false, "C13-accepts-only-the-complete-verified-set")
	default:
	}
	handle(verifSigStream(verifnet.Peer(1), "a", messages.KeysignSignature_Success, raw2))
	verifrt.Quiesce()
	select {
	case r = <-ret:
		verifrt.Reach("second set")
		verifrt.Assert(r.err == nil && c13SameSigs(r.sigs, want2), "C13-delivered-unchanged")
	default:
		verifrt.Assert(false, "C13-correct-set-is-accepted")
	}
}
