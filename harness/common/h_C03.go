package common

import (
	btss "github.com/binance-chain/tss-lib/tss"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C03: a share takes effect only with a valid signature of the member it names, over its content and this session.
// bound: a committee of three (one report is a quorum); one batch with one share; named sender, sender named inside the batch: each member, this node or a stranger; signed by each member or a stranger, over a batch with a symbolic content byte (the same or another) and a symbolic 1-byte session id; unicast or broadcast; delivered directly or as the answer to a request for a missing share
// outside: larger committees; signature schemes (ideal: a signature verifies only for the key and content it was made for)
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
// limit: 240s
func VerifH_C03_Forged() {
	s := verifNewSession(3, 0, "m")
	stranger, _ := verifKey(9)
	ids := append(append([]*btss.PartyID(nil), s.ids...), btss.NewPartyID("9", "", s.ids[1].KeyInt()))
	outer := verifrt.Choose("named sender", 4)
	inner := verifrt.Choose("sender inside", 4)
	bcast := verifrt.Choose("broadcast", 2) == 1
	signer := verifrt.Choose("signer", 3)
	c, d := verifrt.Byte("content"), verifrt.Byte("signed content")
	sid := verifrt.Str("signed session", 1)
	batch := func(x byte) []byte {
		return verifJSON([]BulkWireMsg{NewBulkWireMsg(verifWire(ids[inner], 1, bcast, []byte{x}), "m", &btss.MessageRouting{From: ids[inner], IsBroadcast: bcast})})
	}
	key := stranger
	if signer > 0 {
		key = s.priv[signer]
	}
	w := &messages.WireMessage{
		Routing:   &btss.MessageRouting{From: ids[outer], IsBroadcast: bcast},
		RoundInfo: messages.KEYSIGN1b,
		Message:   batch(c),
		Sig:       verifSign(key, batch(d), sid),
	}
	if verifrt.Choose("as an answer", 2) == 1 {
		s.t.GetBlameMgr().GetShareMgr().Set("h")
		s.deliver(messages.TSSControlMsg, s.peers[1], verifJSON(&messages.TssControl{ReqHash: "h", ReqKey: "k", RequestType: messages.TSSKeySignMsg, Msg: w}))
	} else {
		s.deliver(messages.TSSKeySignMsg, s.peers[1], verifJSON(w))
	}
	valid := verifrt.And(signer > 0, signer == outer, c == d, sid == verifMsgID)
	if got := s.inst["m"].got; len(got) > 0 {
		verifrt.Reach("applied")
		verifrt.Assert(valid, "C03-applied-only-when-signed-by-its-sender")
		verifrt.Assert(len(got) == 1 && got[0].from.Id == ids[outer].Id && got[0].from.Id == ids[inner].Id, "C03-attributed-to-the-signer")
	} else {
		verifrt.Reach("refused")
	}
	if item := s.t.TryGetLocalCacheItem(w.GetCacheKey()); item != nil && item.Msg != nil {
		verifrt.Assert(valid, "C03-cached-only-when-signed-by-its-sender")
	}
	for _, m := range s.sent() {
		verifrt.Assert(verifrt.And(valid, m.WrappedMessage.MessageType == messages.TSSKeySignVerMsg), "C03-announced-only-when-signed-by-its-sender")
	}
	if s.t.GetBlameMgr().GetRoundMgr().Get(w.GetCacheKey()) != nil {
		verifrt.Assert(valid, "C03-evidence-only-when-signed-by-its-sender")
	}
	for r, l := range blame.VerifAccepted(s.t.GetBlameMgr()) {
		for _, id := range l {
			verifrt.Assert(verifrt.And(valid, id == ids[outer].Id, r.MsgIdentifier == "m"), "C03-recorded-as-accepted-only-for-the-signer")
		}
	}
	if len(s.t.GetBlameMgr().GetBlame().BlameNodes) > 0 {
		verifrt.Assert(valid, "C03-no-blame-from-an-unsigned-share")
	}
}

// C03: a share its sender signed for one session takes no effect in another.
// bound: a committee of three; a share signed by its sender, by the code that sends shares, for a session whose id is 64 symbolic characters (the length of the ids in use), received in a session with a given id of 64 characters or its first 63
// outside: sessions with ids of other lengths
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
func VerifH_C03_OtherSession() {
	id := "9f86d081884c7d659a2feaa0c55ad015a3bf4f1b2b0b822cd15d6c15b0f00a08"[:64-verifrt.Choose("shorter", 2)]
	s := verifNewSessionID(id, 3, 0, "m")
	sid := verifrt.Str("signed session", 64)
	e := s.entry(1, 1, true, "m", []byte{7})
	buf := verifJSON([]BulkWireMsg{e})
	sig, err := generateSignature(buf, sid, s.priv[1])
	verifrt.Assert(err == nil, "C03-share-is-signed")
	w := &messages.WireMessage{Routing: &btss.MessageRouting{From: s.ids[1], IsBroadcast: true}, RoundInfo: messages.KEYSIGN1b, Message: buf, Sig: sig}
	s.deliver(messages.TSSKeySignMsg, s.peers[1], verifJSON(w))
	if s.handed() > 0 {
		verifrt.Reach("applied")
		verifrt.Assert(sid == id, "C03-applied-only-when-signed-for-this-session")
	} else {
		verifrt.Reach("refused")
		verifrt.Assert(sid != id, "C03-own-session-is-accepted")
	}
}

// C03: nothing but the signature of the sender over the whole content is good enough.
// bound: a committee of three; a batch of one share by its sender, unicast or broadcast, of a keygen or keysign session, sent directly or as the answer to a request; instead of its signature: none, an empty one, 64 zero bytes, 64 symbolic bytes, the signature without its last byte or with one more, with another first or last byte (symbolic), that of another batch, of the session id alone, of the hash of the batch, or of another member
// outside: signature schemes (ideal: a signature verifies only for the key and content it was made for)
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
func VerifH_C03_Signature() {
	s := verifNewSession(3, 0, "m")
	bcast := verifrt.Choose("broadcast", 2) == 1
	w := s.share(1, 1, bcast, s.entry(1, 1, bcast, "m", []byte{7}))
	good := w.Sig
	h, err := conversion.BytesToHashString(w.Message)
	verifrt.Assert(err == nil, "setup")
	k := verifrt.Choose("signature", 13)
	switch k {
	case 0:
	case 1:
		w.Sig = nil
	case 2:
		w.Sig = []byte{}
	case 3:
		w.Sig = make([]byte, 64)
	case 4:
		w.Sig = verifrt.Bytes("signature", 64)
		verifrt.Assume(string(w.Sig) != string(good))
	case 5:
		w.Sig = good[:len(good)-1]
	case 6:
		w.Sig = append(append([]byte(nil), good...), verifrt.Byte("one more"))
	case 7, 8:
		i := (k - 7) * (len(good) - 1)
		w.Sig = append([]byte(nil), good...)
		w.Sig[i] = verifrt.Byte("another byte")
		verifrt.Assume(w.Sig[i] != good[i])
	case 9:
		w.Sig = verifSign(s.priv[1], verifJSON([]BulkWireMsg{s.entry(1, 1, bcast, "m", []byte{8})}), verifMsgID)
	case 10:
		w.Sig = verifSign(s.priv[1], nil, verifMsgID)
	case 11:
		w.Sig = verifSign(s.priv[1], []byte(h), verifMsgID)
	case 12:
		w.Sig = verifSign(s.priv[2], w.Message, verifMsgID)
	}
	typ := []messages.THORChainTSSMessageType{messages.TSSKeySignMsg, messages.TSSKeyGenMsg}[verifrt.Choose("type", 2)]
	if verifrt.Choose("as an answer", 2) == 1 {
		s.t.GetBlameMgr().GetShareMgr().Set("h")
		s.deliver(messages.TSSControlMsg, s.peers[1], verifJSON(&messages.TssControl{ReqHash: "h", ReqKey: w.GetCacheKey(), RequestType: typ, Msg: w}))
	} else {
		s.deliver(typ, s.peers[1], verifJSON(w))
	}
	announced := len(s.sent())
	// the other member reports the share, which completes the quorum
	s.deliver(typ+2, s.peers[2], verifJSON(&messages.BroadcastConfirmMessage{Key: w.GetCacheKey(), Hash: h}))
	item := s.t.TryGetLocalCacheItem(w.GetCacheKey())
	if k == 0 {
		verifrt.Reach("signed")
		verifrt.Assert(s.handed() == 1, "C03-signed-share-is-applied")
		return
	}
	verifrt.Reach("not signed")
	verifrt.Assert(s.handed() == 0, "C03-applied-only-when-signed-by-its-sender")
	verifrt.Assert(announced == 0, "C03-announced-only-when-signed-by-its-sender")
	verifrt.Assert(item == nil || item.Msg == nil, "C03-cached-only-when-signed-by-its-sender")
	verifrt.Assert(s.t.GetBlameMgr().GetRoundMgr().Get(w.GetCacheKey()) == nil, "C03-evidence-only-when-signed-by-its-sender")
	verifrt.Assert(len(blame.VerifAccepted(s.t.GetBlameMgr())) == 0, "C03-recorded-as-accepted-only-for-the-signer")
	verifrt.Assert(len(s.t.GetBlameMgr().GetBlame().BlameNodes) == 0, "C03-no-blame-from-an-unsigned-share")
}

// C03: every share of a batch is attributed to the member that signed it.
// bound: a committee of four; a batch of 1 to 3 shares signed by member 1, each naming member 1, another member, this node or a stranger as its sender, by id and key, by id alone or by key alone; unicast or broadcast, for either of two instances
// outside: longer batches
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
func VerifH_C03_Batch() {
	insts := []string{"m", "n"}
	s := verifNewSession(4, 0, insts...)
	bcast := verifrt.Choose("broadcast", 2) == 1
	n := 1 + verifrt.Choose("shares", 3)
	stranger := btss.NewPartyID("9", "", s.ids[1].KeyInt())
	var batch []BulkWireMsg
	foreign := false
	for i := 0; i < n; i++ {
		k := verifrt.Choose("sender inside", 5)
		e := s.entry(1, 1, bcast, insts[i%2], []byte{byte(i + 1)})
		switch k {
		case 1:
			e.Routing.From = s.ids[2]
		case 2: // this node
			e.Routing.From = s.ids[0]
		case 3:
			e.Routing.From = stranger
		case 4: // the id of another member, the key of the signer
			e.Routing.From = btss.NewPartyID(s.ids[2].Id, s.ids[1].Moniker, s.ids[1].KeyInt())
		}
		foreign = foreign || k > 0
		batch = append(batch, e)
	}
	w := s.share(1, 1, bcast, batch...)
	s.deliver(messages.TSSKeySignMsg, s.peers[1], verifJSON(w))
	h, err := conversion.BytesToHashString(w.Message)
	verifrt.Assert(err == nil, "setup")
	for _, p := range s.peers[2:] {
		s.deliver(messages.TSSKeySignVerMsg, p, verifJSON(&messages.BroadcastConfirmMessage{Key: w.GetCacheKey(), Hash: h}))
	}
	for _, name := range insts {
		for _, g := range s.inst[name].got {
			verifrt.Assert(g.from.Id == s.ids[1].Id, "C03-attributed-to-the-signer")
		}
	}
	for _, l := range blame.VerifAccepted(s.t.GetBlameMgr()) {
		for _, id := range l {
			verifrt.Assert(id == s.ids[1].Id, "C03-recorded-as-accepted-only-for-the-signer")
		}
	}
	for _, id := range s.ids {
		if m := s.t.GetBlameMgr().GetRoundMgr().Get(id.Id + "-" + w.RoundInfo); m != nil {
			verifrt.Assert(id.Id == s.ids[1].Id, "C03-evidence-only-when-signed-by-its-sender")
		}
	}
	if foreign {
		verifrt.Reach("names others")
	} else {
		verifrt.Reach("names the signer")
		verifrt.Assert(s.handed() > 0, "C03-signed-share-is-applied")
	}
}

// C03: large batches of large committees.
// bound: committees of 5 or 13 (quick: 13 with batches of 11 only), this node at the beginning, in the middle or at the end; a batch of 2, 4 or 11 shares, one per instance, of any round of a keygen (one share) or keysign, all by the signer, or one of them (the first, a middle or the last one) naming another member or this node; the signature is the signer's, that of a batch without that share, of another member or of another session
// stub: tss-lib parties record what they are handed; signatures and SHA-256 are ideal
func VerifH_C03_Large() {
	n := []int{5, 13}[verifrt.Choose("committee", 2)]
	pair := [][2]int{{0, n - 1}, {n / 2, n/2 - 1}, {n - 1, 0}}[verifrt.Choose("me", 3)]
	me, owner := pair[0], pair[1]
	other := (me + 2) % n
	k := []int{2, 4, 11}[verifrt.Choose("shares", 3)]
	typ, ver, rounds := verifProtocol(true)
	round := rounds[verifrt.Choose("round", len(rounds))]
	if n == 13 && !verifrt.Thorough() {
		verifrt.Assume(k == 11)
	}
	bcast := !verifUnicast(round)
	var insts []string
	for i := 0; i < k; i++ {
		insts = append(insts, string([]byte{'1', '0' + byte(i/10), '0' + byte(i%10), ':', '0' + byte(i%10)}))
	}
	s := verifNewSession(n, me, insts...)
	var batch []BulkWireMsg
	for i, name := range insts {
		batch = append(batch, s.entry(owner, round, bcast, name, []byte{byte(i + 1), verifrt.Byte("share")}))
	}
	bad := []int{-1, 0, k / 2, k - 1}[verifrt.Choose("which", 4)]
	w := s.share(owner, round, bcast, batch...)
	signed := verifrt.Choose("signed", 4)
	if bad >= 0 {
		switch verifrt.Choose("names", 2) {
		case 0:
			batch[bad] = s.entry(other, round, bcast, insts[bad], []byte{99})
		default:
			batch[bad].Routing.From = s.ids[me]
		}
		w = s.share(owner, round, bcast, batch...)
	}
	switch signed {
	case 1:
		i := 0
		if bad > 0 {
			i = bad
		}
		w.Sig = s.share(owner, round, bcast, append(append([]BulkWireMsg(nil), batch[:i]...), batch[i+1:]...)...).Sig
	case 2:
		w.Sig = verifSign(s.priv[other], w.Message, verifMsgID)
	case 3:
		w.Sig = verifSign(s.priv[owner], w.Message, verifMsgID+"a")
	}
	s.deliver(typ, s.peers[owner], verifJSON(w))
	if bcast {
		s.confirm(ver, owner, w)
	}
	for _, name := range insts {
		for _, g := range s.inst[name].got {
			verifrt.Assert(g.from.Id == s.ids[owner].Id, "C03-attributed-to-the-signer")
		}
	}
	for _, l := range blame.VerifAccepted(s.t.GetBlameMgr()) {
		for _, id := range l {
			verifrt.Assert(id == s.ids[owner].Id, "C03-recorded-as-accepted-only-for-the-signer")
		}
	}
	for m, id := range s.ids {
		verifrt.Assert(m == owner || s.t.GetBlameMgr().GetRoundMgr().Get(id.Id+"-"+w.RoundInfo) == nil, "C03-evidence-only-when-signed-by-its-sender")
	}
	if signed > 0 {
		verifrt.Reach("not signed")
		verifrt.Assert(s.handed() == 0, "C03-applied-only-when-signed-by-its-sender")
		verifrt.Assert(s.t.GetBlameMgr().GetRoundMgr().Get(w.GetCacheKey()) == nil, "C03-evidence-only-when-signed-by-its-sender")
	} else if bad < 0 {
		verifrt.Reach("signed")
		verifrt.Assert(s.handed() == k, "C03-signed-share-is-applied")
	}
}
