package storage

import (
	"math/big"
	"path/filepath"
	"strings"

	"github.com/binance-chain/tss-lib/crypto"
	"github.com/binance-chain/tss-lib/crypto/paillier"
	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/binance-chain/tss-lib/tss"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

func c19Mgr() (*FileStateMgr, string, string) {
	conversion.SetupBech32Prefix()
	base := verifrt.TempDir()
	folder := filepath.Join(base, "state")
	return c19Open(folder), base, folder
}

func c19Open(folder string) *FileStateMgr {
	m, err := NewFileStateMgr(folder)
	verifrt.Assert(err == nil, "C19-folder-opens")
	return m
}

func c19Big(name string) *big.Int {
	if verifrt.Choose(name+" present", 2) == 0 {
		return nil
	}
	return new(big.Int).SetBytes(verifrt.Bytes(name, 1))
}

// c19Data is share data with symbolic secrets and n members.
func c19Data(n int) bkeygen.LocalPartySaveData {
	d := bkeygen.NewLocalPartySaveData(n)
	d.Xi = new(big.Int).SetBytes(verifrt.Bytes("xi", 2))
	d.ShareID = c19Big("share id")
	g := crypto.NewECPointNoCurveCheck(tss.EC(), tss.EC().Params().Gx, tss.EC().Params().Gy)
	for i := 0; i < n; i++ {
		d.Ks[i] = new(big.Int).SetBytes(verifrt.Bytes("k", 1))
		d.NTildej[i] = big.NewInt(int64(100 + i))
		d.H1j[i] = big.NewInt(int64(200 + i))
		d.H2j[i] = big.NewInt(int64(300 + i))
		d.BigXj[i] = g
		if i == 1 {
			d.BigXj[i] = g.Neg()
		}
		d.PaillierPKs[i] = &paillier.PublicKey{N: big.NewInt(int64(400 + i))}
	}
	d.NTildei = big.NewInt(501)
	d.H1i = big.NewInt(502)
	d.H2i = big.NewInt(503)
	d.PaillierSK = &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: big.NewInt(77)}, LambdaN: big.NewInt(5), PhiN: big.NewInt(60)}
	d.ECDSAPub = g
	return d
}

func c19State(key string, sym int) KeygenLocalState {
	s := KeygenLocalState{PubKey: key, LocalPartyKey: verifrt.Str("local", sym)}
	for i := verifrt.Choose("participants", 3); i > 0; i-- {
		s.ParticipantKeys = append(s.ParticipantKeys, verifrt.Str("participant", sym))
	}
	return s
}

func c19SameBig(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Cmp(b) == 0
}

func c19SameBigs(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verifrt.And(ok, c19SameBig(a[i], b[i]))
	}
	return ok
}

func c19SamePoint(a, b *crypto.ECPoint) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.X().Cmp(b.X()) == 0 && a.Y().Cmp(b.Y()) == 0
}

func c19SameData(a, b bkeygen.LocalPartySaveData) bool {
	if len(a.BigXj) != len(b.BigXj) || len(a.PaillierPKs) != len(b.PaillierPKs) || (a.PaillierSK == nil) != (b.PaillierSK == nil) {
		return false
	}
	ok := verifrt.And(c19SameBig(a.Xi, b.Xi), c19SameBig(a.ShareID, b.ShareID), c19SameBigs(a.Ks, b.Ks), c19SameBigs(a.NTildej, b.NTildej),
		c19SameBigs(a.H1j, b.H1j), c19SameBigs(a.H2j, b.H2j), c19SameBig(a.NTildei, b.NTildei), c19SameBig(a.H1i, b.H1i), c19SameBig(a.H2i, b.H2i),
		c19SameBig(a.Alpha, b.Alpha), c19SameBig(a.Beta, b.Beta), c19SameBig(a.P, b.P), c19SameBig(a.Q, b.Q), c19SamePoint(a.ECDSAPub, b.ECDSAPub))
	for i := range a.BigXj {
		ok = verifrt.And(ok, c19SamePoint(a.BigXj[i], b.BigXj[i]))
	}
	for i := range a.PaillierPKs {
		x, y := a.PaillierPKs[i], b.PaillierPKs[i]
		if x == nil || y == nil {
			ok = verifrt.And(ok, x == nil && y == nil)
			continue
		}
		ok = verifrt.And(ok, c19SameBig(x.N, y.N))
	}
	if a.PaillierSK != nil {
		ok = verifrt.And(ok, c19SameBig(a.PaillierSK.N, b.PaillierSK.N), c19SameBig(a.PaillierSK.LambdaN, b.PaillierSK.LambdaN), c19SameBig(a.PaillierSK.PhiN, b.PaillierSK.PhiN))
	}
	return ok
}

func c19Same(a, b KeygenLocalState) bool {
	if len(a.ParticipantKeys) != len(b.ParticipantKeys) {
		return false
	}
	ok := verifrt.And(a.PubKey == b.PubKey, a.LocalPartyKey == b.LocalPartyKey)
	for i := range a.ParticipantKeys {
		ok = verifrt.And(ok, a.ParticipantKeys[i] == b.ParticipantKeys[i])
	}
	return verifrt.And(ok, c19SameData(a.LocalData, b.LocalData))
}

// c19Inside: nothing was written outside the state folder.
func c19Inside(base string) bool {
	for _, f := range verifrt.Files(base) {
		if !strings.HasPrefix(f, "state/") {
			return false
		}
	}
	return true
}

// C19: what is saved is what is retrieved, secrets included.
// bound: share data of 0..2 members with symbolic secrets (1..2 bytes) and a symbolic or absent share id, 0..2 symbolic participants; read back by the same or a restarted manager
// outside: larger numbers and committees; the text of JSON (documents are abstract: the encoding is faithful for every value)
// stub: the file system model of the engine
// limit: 200s
func VerifH_C19_RoundTrip() {
	m, base, folder := c19Mgr()
	s := c19State(verifnet.Keys[0], 1)
	s.LocalData = c19Data(verifrt.Choose("members", 3))
	verifrt.Assert(m.SaveLocalState(s) == nil, "C19-a-state-can-be-saved")
	if verifrt.Choose("restart", 2) == 1 {
		m = c19Open(folder)
	}
	got, err := m.GetLocalState(verifnet.Keys[0])
	verifrt.Reach("retrieved")
	verifrt.Assert(err == nil, "C19-a-saved-state-is-retrieved")
	verifrt.Assert(c19Same(got, s), "C19-the-state-is-retrieved-unchanged")
	verifrt.Assert(c19Inside(base), "C19-nothing-outside-the-folder")
}

// C19: states of different keys do not disturb each other and the latest save of a key counts.
// bound: 1..3 saves in a row of two keys (unrelated ones, two that begin with the same 24 or end with the same 7 characters) in every order, states of different lengths with a symbolic local party; share data empty
// stub: the file system model of the engine
// limit: 200s
func VerifH_C19_ManyKeys() {
	m, base, folder := c19Mgr()
	keys := [][]string{verifnet.Keys[:2], verifnet.TwinKeys[0], verifnet.TwinKeys[1]}[verifrt.Choose("keys", 3)]
	saved := map[string]KeygenLocalState{}
	for i := verifrt.Choose("saves", 3) + 1; i > 0; i-- {
		k := keys[verifrt.Choose("key", 2)]
		s := c19State(k, i)
		verifrt.Assert(m.SaveLocalState(s) == nil, "C19-a-state-can-be-saved")
		saved[k] = s
	}
	if verifrt.Choose("restart", 2) == 1 {
		m = c19Open(folder)
	}
	for _, k := range keys {
		got, err := m.GetLocalState(k)
		if s, ok := saved[k]; ok {
			verifrt.Reach("retrieved")
			verifrt.Assert(err == nil, "C19-a-saved-state-is-retrieved")
			verifrt.Assert(c19Same(got, s), "C19-the-latest-state-of-the-key-is-retrieved")
		} else {
			verifrt.Reach("unknown")
			verifrt.Assert(err != nil, "C19-an-unknown-key-is-an-error")
			verifrt.Assert(c19Same(got, KeygenLocalState{}), "C19-an-error-comes-without-a-state")
		}
	}
	verifrt.Assert(c19Inside(base), "C19-nothing-outside-the-folder")
}

// C19: what callers do with a state they saved or retrieved does not change what is stored.
// bound: a state with two members and two symbolic participants, saved and retrieved; then the caller changes any of the participants, the secrets or the lists of either value in place, and the state is retrieved again
// stub: the file system model of the engine
// limit: 200s
func VerifH_C19_Aliases() {
	m, _, _ := c19Mgr()
	mk := func() KeygenLocalState {
		s := KeygenLocalState{PubKey: verifnet.Keys[0], LocalPartyKey: "b", ParticipantKeys: []string{"b", "a"}}
		s.LocalData = bkeygen.NewLocalPartySaveData(2)
		s.LocalData.Xi = big.NewInt(9)
		s.LocalData.Ks[0], s.LocalData.Ks[1] = big.NewInt(1), big.NewInt(2)
		s.LocalData.NTildej[0], s.LocalData.NTildej[1] = big.NewInt(3), big.NewInt(4)
		return s
	}
	saved, want := mk(), mk()
	p := verifrt.Str("participant", 1)
	saved.ParticipantKeys[1], want.ParticipantKeys[1] = p, p
	verifrt.Assert(m.SaveLocalState(saved) == nil, "C19-a-state-can-be-saved")
	got, err := m.GetLocalState(verifnet.Keys[0])
	verifrt.Assert(err == nil && c19Same(got, want), "C19-the-state-is-retrieved-unchanged")
	v := &saved
	if verifrt.Choose("changed", 2) == 1 {
		v = &got
	}
	switch verifrt.Choose("change", 5) {
	case 0:
		v.ParticipantKeys[0], v.ParticipantKeys[1] = v.ParticipantKeys[1], v.ParticipantKeys[0]
	case 1:
		v.ParticipantKeys[0] = "other"
	case 2:
		v.LocalData.Xi.SetInt64(99)
	case 3:
		v.LocalData.Ks[0], v.LocalData.Ks[1] = v.LocalData.Ks[1], v.LocalData.Ks[0]
	case 4:
		v.LocalPartyKey, v.PubKey = "other", verifnet.Keys[1]
	}
	again, err := m.GetLocalState(verifnet.Keys[0])
	verifrt.Reach("retrieved again")
	verifrt.Assert(err == nil && c19Same(again, want), "C19-the-state-is-retrieved-unchanged")
}

// C19: states saved with shorter contents replace longer ones completely.
// bound: two saves of one key with concrete participants of different lengths, in both orders
// stub: the file system model of the engine; concrete documents are real JSON text
func VerifH_C19_Overwrite() {
	m, _, _ := c19Mgr()
	a := KeygenLocalState{PubKey: verifnet.Keys[0], LocalPartyKey: "A", ParticipantKeys: []string{"A", "B", "C"}}
	b := KeygenLocalState{PubKey: verifnet.Keys[0], LocalPartyKey: "a much longer name of a party", ParticipantKeys: []string{"a much longer name of a party", "B", "C", "D"}}
	if verifrt.Choose("order", 2) == 1 {
		a, b = b, a
	}
	verifrt.Assert(m.SaveLocalState(a) == nil, "C19-a-state-can-be-saved")
	verifrt.Assert(m.SaveLocalState(b) == nil, "C19-a-state-can-be-saved")
	got, err := m.GetLocalState(verifnet.Keys[0])
	verifrt.Reach("retrieved")
	verifrt.Assert(err == nil, "C19-a-saved-state-is-retrieved")
	verifrt.Assert(c19Same(got, b), "C19-the-latest-state-of-the-key-is-retrieved")
}

// C19: a malformed key is an error and touches no file.
// bound: keys of 0..1 symbolic characters; crafted keys (path elements, a valid key with something added, a key of another prefix, an address, a NUL byte); saving and retrieving; the other key's state saved before
// outside: other long strings that are no bech32 public key (the bech32 decoder is executed as it is, for concrete strings)
// stub: the file system model of the engine
// limit: 200s
func VerifH_C19_MalformedKey() {
	m, base, _ := c19Mgr()
	s := KeygenLocalState{PubKey: verifnet.Keys[1], LocalPartyKey: "me"}
	verifrt.Assert(m.SaveLocalState(s) == nil, "C19-a-state-can-be-saved")
	before := verifrt.Files(base)
	var key string
	switch verifrt.Choose("kind", 8) {
	case 0:
		key = verifrt.Str("key", verifrt.Choose("length", 2))
	case 1:
		key = "../" + verifnet.Keys[0]
	case 2:
		key = verifnet.Keys[1] + "/../../x"
	case 3:
		key = verifnet.Keys[1] + " "
	case 4:
		key = "../../../tmp/x"
	case 5:
		key = "bnbp1addwnpepqdqy3mvmnmwvhk8qwgvwz4m7ftctz2sd0g5e7t3a2hqzc5p7ny5q6r0qxk6"
	case 6:
		key = "thor1z53wwe7md6cewz9sqwqzn0aavpaun0gw0exn2r"
	case 7:
		key = verifnet.Keys[1] + "\x00"
	}
	got, err := m.GetLocalState(key)
	verifrt.Reach("retrieve")
	verifrt.Assert(err != nil, "C19-a-malformed-key-is-an-error")
	verifrt.Assert(c19Same(got, KeygenLocalState{}), "C19-an-error-comes-without-a-state")
	bad := s
	bad.PubKey = key
	verifrt.Assert(m.SaveLocalState(bad) != nil, "C19-a-malformed-key-is-not-saved")
	after := verifrt.Files(base)
	verifrt.Assert(strings.Join(before, "\n") == strings.Join(after, "\n"), "C19-a-malformed-key-touches-no-file")
	got, err = m.GetLocalState(verifnet.Keys[1])
	verifrt.Assert(err == nil && c19Same(got, s), "C19-the-other-state-is-intact")
}

func c19Crash(key int, fault bool) {
	m, base, folder := c19Mgr()
	other := c19State(verifnet.Keys[1], 1)
	verifrt.Assert(m.SaveLocalState(other) == nil, "C19-a-state-can-be-saved")
	old := KeygenLocalState{PubKey: verifnet.Keys[0], LocalPartyKey: "the old party", ParticipantKeys: []string{"the old party", "B"}}
	had := verifrt.Choose("saved before", 2) == 1
	if had {
		verifrt.Assert(m.SaveLocalState(old) == nil, "C19-a-state-can-be-saved")
	}
	next := c19State(verifnet.Keys[0], 2)
	var err error
	save := func() {
		err = m.SaveLocalState(next)
	}
	var down bool
	if fault {
		down = verifrt.Fault(save)
	} else {
		down = verifrt.Crash(save)
	}
	if down {
		verifrt.Reach("down")
	} else {
		verifrt.Reach("up")
		verifrt.Assert(err == nil, "C19-a-state-can-be-saved")
	}
	if !fault {
		m = c19Open(folder)
	}
	got, gerr := m.GetLocalState(verifnet.Keys[0])
	isNew := gerr == nil && c19Same(got, next)
	if !down || fault && err == nil {
		verifrt.Assert(isNew, "C19-a-successful-save-is-retrieved")
	} else if had {
		verifrt.Assert(gerr == nil, "C19-the-state-survives-a-crash")
		verifrt.Assert(verifrt.Or(isNew, c19Same(got, old)), "C19-the-old-or-the-new-state-survives")
	} else {
		verifrt.Assert(verifrt.Or(isNew, gerr != nil), "C19-no-damaged-state-after-a-crash")
	}
	got, gerr = m.GetLocalState(verifnet.Keys[1])
	verifrt.Assert(gerr == nil && c19Same(got, other), "C19-other-states-survive-a-crash")
	verifrt.Assert(c19Inside(base), "C19-nothing-outside-the-folder")
	// the manager is as good as new
	again := KeygenLocalState{PubKey: verifnet.Keys[0], LocalPartyKey: "again"}
	verifrt.Assert(m.SaveLocalState(again) == nil, "C19-a-state-can-be-saved-after-a-crash")
	got, gerr = m.GetLocalState(verifnet.Keys[0])
	verifrt.Assert(gerr == nil && c19Same(got, again), "C19-a-state-can-be-saved-after-a-crash")
}

// C19: a crash while saving leaves the old or the new state.
// bound: one crash at every file operation of the save (and after it), a write cut at 0, 1, half or all but one of its bytes, unsynced data kept or lost; the key saved before or not, another key saved before; new states with 0..2 symbolic participants
// outside: a lost rename or directory entry (the file system orders metadata); two crashes
// stub: the file system model of the engine (replayed on the real file system with a wrapped package syscall)
// limit: 200s
func VerifH_C19_Crash() { c19Crash(0, false) }

// C19: what a crash left behind does not spoil a later save.
// bound: one crash at every file operation of the save of a long state (a write cut as above), then a shorter or an equally long state of the same or another key is saved and both keys are retrieved
// outside: two crashes
// stub: the file system model of the engine (replayed on the real file system with a wrapped package syscall)
// limit: 200s
func VerifH_C19_AfterCrash() {
	m, base, folder := c19Mgr()
	long := KeygenLocalState{PubKey: verifnet.Keys[0], LocalPartyKey: "a local party with a long name", ParticipantKeys: []string{"the first of them", "B"}}
	if verifrt.Crash(func() { _ = m.SaveLocalState(long) }) {
		verifrt.Reach("down")
	}
	m = c19Open(folder)
	next := KeygenLocalState{PubKey: verifnet.Keys[verifrt.Choose("key", 2)], LocalPartyKey: "short"}
	if verifrt.Choose("length", 2) == 1 {
		next = KeygenLocalState{PubKey: next.PubKey, LocalPartyKey: "another party with a long name", ParticipantKeys: []string{"the first of them", "C"}}
	}
	verifrt.Assert(m.SaveLocalState(next) == nil, "C19-a-state-can-be-saved-after-a-crash")
	got, err := m.GetLocalState(next.PubKey)
	verifrt.Assert(err == nil && c19Same(got, next), "C19-a-state-saved-after-a-crash-is-retrieved")
	if next.PubKey != long.PubKey {
		got, err = m.GetLocalState(long.PubKey)
		verifrt.Assert(err != nil || c19Same(got, long), "C19-no-damaged-state-after-a-crash")
	}
	verifrt.Assert(c19Inside(base), "C19-nothing-outside-the-folder")
}

// C19: a failing file operation while saving leaves the old or the new state, and success is not reported for nothing.
// bound: one failing file operation (writes fail after 0, 1, half or all but one of their bytes); otherwise as for crashes
// stub: the file system model of the engine (replayed on the real file system with a wrapped package syscall)
// limit: 200s
func VerifH_C19_Fault() { c19Crash(0, true) }

// C19: states of the size they have in use.
// bound: states of 4, 14 and 40 members with numbers of 2048 bits (up to 140 kB of JSON), saved over a state of another size or not, with another key saved before or after
// stub: the file system model of the engine
func VerifH_C19_Large() {
	m, base, folder := c19Mgr()
	mk := func(key string, n int) KeygenLocalState {
		s := KeygenLocalState{PubKey: key, LocalPartyKey: verifnet.ManyKeys[n%13]}
		d := bkeygen.NewLocalPartySaveData(n)
		num := func(i int) *big.Int {
			x := new(big.Int).Lsh(big.NewInt(int64(2*i+1)), 2000)
			return x.Add(x, big.NewInt(int64(n+i)))
		}
		d.Xi, d.ShareID = num(1), num(2)
		g := crypto.NewECPointNoCurveCheck(tss.EC(), tss.EC().Params().Gx, tss.EC().Params().Gy)
		for i := 0; i < n; i++ {
			s.ParticipantKeys = append(s.ParticipantKeys, verifnet.ManyKeys[i%14])
			d.Ks[i], d.NTildej[i], d.H1j[i], d.H2j[i] = num(i), num(100+i), num(200+i), num(300+i)
			d.BigXj[i] = g
			d.PaillierPKs[i] = &paillier.PublicKey{N: num(400 + i)}
		}
		d.PaillierSK = &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: num(5)}, LambdaN: num(6), PhiN: num(7)}
		d.ECDSAPub = g
		s.LocalData = d
		return s
	}
	sizes := []int{4, 14, 40}
	k := verifnet.Keys[0]
	if x := verifrt.Choose("saved before", 4); x > 0 {
		verifrt.Assert(m.SaveLocalState(mk(k, sizes[x-1])) == nil, "C19-a-state-can-be-saved")
	}
	s := mk(k, sizes[verifrt.Choose("size", 3)])
	other := mk(verifnet.Keys[1], sizes[verifrt.Choose("other size", 3)])
	after := verifrt.Choose("other", 2) == 1
	if !after {
		verifrt.Assert(m.SaveLocalState(other) == nil, "C19-a-state-can-be-saved")
	}
	verifrt.Assert(m.SaveLocalState(s) == nil, "C19-a-state-can-be-saved")
	if after {
		verifrt.Assert(m.SaveLocalState(other) == nil, "C19-a-state-can-be-saved")
	}
	m = c19Open(folder)
	got, err := m.GetLocalState(k)
	verifrt.Reach("retrieved")
	verifrt.Assert(err == nil && c19Same(got, s), "C19-the-state-is-retrieved-unchanged")
	got, err = m.GetLocalState(verifnet.Keys[1])
	verifrt.Assert(err == nil && c19Same(got, other), "C19-the-state-is-retrieved-unchanged")
	verifrt.Assert(c19Inside(base), "C19-nothing-outside-the-folder")
}
