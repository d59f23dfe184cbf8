package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// verifServer records the calls and answers as told.
type verifServer struct {
	gens  []keygen.Request
	signs []keysign.Request
	gen   keygen.Response
	sign  keysign.Response
	err   error
}

func (s *verifServer) Start() error           { return nil }
func (s *verifServer) Stop()                  {}
func (s *verifServer) GetLocalPeerID() string { return "me" }
func (s *verifServer) Keygen(r keygen.Request) (keygen.Response, error) {
	s.gens = append(s.gens, r)
	return s.gen, s.err
}

func (s *verifServer) KeySign(r keysign.Request) (keysign.Response, error) {
	s.signs = append(s.signs, r)
	return s.sign, s.err
}

type verifWriter struct {
	code int
	body []byte
	h    http.Header
}

func (w *verifWriter) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}

func (w *verifWriter) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = http.StatusOK
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

func (w *verifWriter) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}

type verifBody struct {
	io.Reader
	closed int
}

func (b *verifBody) Close() error { b.closed++; return nil }

func c22JSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	verifrt.Assert(err == nil, "setup")
	return b
}

func c22Same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verifrt.And(ok, a[i] == b[i])
	}
	return ok
}

func c22Strings(what string) []string {
	var l []string
	for i := verifrt.Choose(what, 3); i > 0; i-- {
		l = append(l, verifrt.Str(what, 1))
	}
	return l
}

func c22Blame() blame.Blame {
	b := blame.NewBlame(verifrt.Str("reason", 1), nil)
	b.IsUnicast = verifrt.Bool("unicast")
	for i := verifrt.Choose("blamed", 2); i > 0; i-- {
		b.BlameNodes = append(b.BlameNodes, blame.NewNode(verifrt.Str("blamed", 1), verifrt.Bytes("data", 1), nil))
	}
	return b
}

func c22SameBlame(a, b blame.Blame) bool {
	if len(a.BlameNodes) != len(b.BlameNodes) {
		return false
	}
	ok := verifrt.And(a.FailReason == b.FailReason, a.IsUnicast == b.IsUnicast)
	for i := range a.BlameNodes {
		ok = verifrt.And(ok, a.BlameNodes[i].Pubkey == b.BlameNodes[i].Pubkey, bytes.Equal(a.BlameNodes[i].BlameData, b.BlameNodes[i].BlameData))
	}
	return ok
}

// c22Do runs one request through the handlers (direct) or the router.
func c22Do(s *verifServer, method, path string, body []byte) (*verifWriter, *verifBody) {
	return c22On(&TssHttpServer{tssServer: s}, method, path, body)
}

func c22On(h *TssHttpServer, method, path string, body []byte) (*verifWriter, *verifBody) {
	w := &verifWriter{}
	b := &verifBody{Reader: bytes.NewReader(body)}
	r := &http.Request{Method: method, Body: b, URL: &url.URL{Path: path}, Header: http.Header{}, RequestURI: path, Proto: "HTTP/1.1"}
	if path == "/keygen" {
		h.keygenHandler(w, r)
	} else {
		h.keySignHandler(w, r)
	}
	return w, b
}

// C22: a keygen request reaches the server once with its fields, and is answered with the response of the server.
// bound: bodies with 0..2 keys of one symbolic character, a symbolic version and height; responses with a symbolic key, address, status and blame (0..1 blamed nodes); the server reporting an error or not
// outside: longer strings; transport of HTTP itself
// stub: the TSS server and the response writer record; JSON documents are abstract (encoding is faithful for every value)
// limit: 120s
func VerifH_C22_Keygen() {
	s := &verifServer{gen: keygen.NewResponse(verifrt.Str("pool", 1), verifrt.Str("address", 1), common.Status(verifrt.Range("status", 0, 2)), c22Blame())}
	if verifrt.Choose("server fails", 2) == 1 {
		s.err = errors.New("failed")
	}
	req := keygen.NewRequest(c22Strings("key"), verifrt.Int64("height"), verifrt.Str("version", 1))
	w, b := c22Do(s, http.MethodPost, "/keygen", c22JSON(req))
	verifrt.Assert(len(s.gens) == 1 && len(s.signs) == 0, "C22-the-server-is-called-once")
	g := s.gens[0]
	verifrt.Assert(verifrt.And(c22Same(g.Keys, req.Keys), g.BlockHeight == req.BlockHeight, g.Version == req.Version), "C22-the-request-is-passed-on-unchanged")
	verifrt.Assert(b.closed > 0, "C22-body-closed")
	if w.code != http.StatusOK {
		// a failure may be reported by the status code as well
		verifrt.Assert(s.err != nil && w.code >= 500, "C22-answered-with-200")
		return
	}
	verifrt.Reach("answered")
	var r keygen.Response
	verifrt.Assert(json.Unmarshal(w.body, &r) == nil, "C22-the-answer-is-a-response")
	verifrt.Assert(verifrt.And(r.PubKey == s.gen.PubKey, r.PoolAddress == s.gen.PoolAddress, r.Status == s.gen.Status), "C22-answered-with-the-response-of-the-server")
	verifrt.Assert(c22SameBlame(r.Blame, s.gen.Blame), "C22-answered-with-the-response-of-the-server")
}

// C22: a keysign request reaches the server once with its fields, and is answered with the response of the server or an error status.
// bound: bodies with 0..2 messages and 0..2 signers of one symbolic character, a symbolic pool key, version and height; responses with 0..2 signatures of symbolic fields, a symbolic status and blame (0..1 blamed nodes); the server reporting an error or not
// outside: longer strings; transport of HTTP itself
// stub: the TSS server and the response writer record; JSON documents are abstract (encoding is faithful for every value)
// limit: 120s
func VerifH_C22_Keysign() {
	var sigs []keysign.Signature
	for i := verifrt.Choose("signatures", 3); i > 0; i-- {
		sigs = append(sigs, keysign.NewSignature(verifrt.Str("msg", 1), verifrt.Str("r", 1), verifrt.Str("s", 1), verifrt.Str("id", 1)))
	}
	s := &verifServer{sign: keysign.NewResponse(sigs, common.Status(verifrt.Range("status", 0, 2)), c22Blame())}
	if verifrt.Choose("server fails", 2) == 1 {
		s.err = errors.New("failed")
	}
	req := keysign.NewRequest(verifrt.Str("pool", 1), c22Strings("message"), verifrt.Int64("height"), c22Strings("signer"), verifrt.Str("version", 1))
	w, b := c22Do(s, http.MethodPost, "/keysign", c22JSON(req))
	verifrt.Assert(len(s.signs) == 1 && len(s.gens) == 0, "C22-the-server-is-called-once")
	g := s.signs[0]
	verifrt.Assert(verifrt.And(g.PoolPubKey == req.PoolPubKey, c22Same(g.Messages, req.Messages), c22Same(g.SignerPubKeys, req.SignerPubKeys), g.BlockHeight == req.BlockHeight, g.Version == req.Version), "C22-the-request-is-passed-on-unchanged")
	verifrt.Assert(b.closed > 0, "C22-body-closed")
	if s.err != nil {
		verifrt.Reach("failed")
		verifrt.Assert(w.code >= 500 && w.code < 600, "C22-a-failure-is-a-5xx")
		verifrt.Assert(len(w.body) == 0 || w.body[0] != '{', "C22-no-response-with-a-failure")
		return
	}
	verifrt.Reach("answered")
	verifrt.Assert(w.code == http.StatusOK, "C22-answered-with-200")
	var r keysign.Response
	verifrt.Assert(json.Unmarshal(w.body, &r) == nil, "C22-the-answer-is-a-response")
	verifrt.Assert(len(r.Signatures) == len(sigs), "C22-answered-with-the-response-of-the-server")
	for i, x := range r.Signatures {
		verifrt.Assert(verifrt.And(x.Msg == sigs[i].Msg, x.R == sigs[i].R, x.S == sigs[i].S, x.RecoveryID == sigs[i].RecoveryID), "C22-answered-with-the-response-of-the-server")
	}
	verifrt.Assert(verifrt.And(r.Status == s.sign.Status, c22SameBlame(r.Blame, s.sign.Blame)), "C22-answered-with-the-response-of-the-server")
}

// C22: a request does not leave anything behind for the next one.
// bound: two requests to one server (keygen or keysign each), the first with every field set, failing or not; in the second each field is present (symbolic) or left out
// outside: longer histories
// stub: the TSS server and the response writer record; JSON documents are abstract (encoding is faithful for every value)
// limit: 120s
func VerifH_C22_TwoRequests() {
	s := &verifServer{gen: keygen.NewResponse("k", "a", common.Success, blame.NewBlame("", nil)), sign: keysign.NewResponse(nil, common.Success, blame.NewBlame("", nil))}
	h := &TssHttpServer{tssServer: s}
	if verifrt.Choose("first fails", 2) == 1 {
		s.err = errors.New("failed")
	}
	if verifrt.Choose("first", 2) == 1 {
		c22On(h, http.MethodPost, "/keygen", c22JSON(keygen.NewRequest([]string{"a", "b"}, 7, "v")))
	} else {
		c22On(h, http.MethodPost, "/keysign", c22JSON(keysign.NewRequest("p", []string{"m", "n"}, 7, []string{"s", "t"}, "v")))
	}
	s.err, s.gens, s.signs = nil, nil, nil
	height := verifrt.Int64("height")
	v := verifrt.Str("version", 1)
	doc := map[string]interface{}{}
	has := func(field string, val interface{}) bool {
		if verifrt.Choose(field, 2) == 0 {
			return false
		}
		doc[field] = val
		return true
	}
	if verifrt.Choose("second", 2) == 1 {
		req := keygen.Request{}
		if k := []string{v}; has("keys", k) {
			req.Keys = k
		}
		if has("block_height", height) {
			req.BlockHeight = height
		}
		if has("tss_version", v) {
			req.Version = v
		}
		w, _ := c22On(h, http.MethodPost, "/keygen", c22JSON(doc))
		verifrt.Reach("keygen")
		verifrt.Assert(len(s.gens) == 1 && len(s.signs) == 0 && w.code == http.StatusOK, "C22-the-server-is-called-once")
		g := s.gens[0]
		verifrt.Assert(verifrt.And(c22Same(g.Keys, req.Keys), g.BlockHeight == req.BlockHeight, g.Version == req.Version), "C22-the-request-is-passed-on-unchanged")
		return
	}
	req := keysign.Request{}
	if has("pool_pub_key", v) {
		req.PoolPubKey = v
	}
	if k := []string{v}; has("messages", k) {
		req.Messages = k
	}
	if k := []string{v, "x"}; has("signer_pub_keys", k) {
		req.SignerPubKeys = k
	}
	if has("block_height", height) {
		req.BlockHeight = height
	}
	if has("tss_version", v) {
		req.Version = v
	}
	w, _ := c22On(h, http.MethodPost, "/keysign", c22JSON(doc))
	verifrt.Reach("keysign")
	verifrt.Assert(len(s.signs) == 1 && len(s.gens) == 0 && w.code == http.StatusOK, "C22-the-server-is-called-once")
	g := s.signs[0]
	verifrt.Assert(verifrt.And(g.PoolPubKey == req.PoolPubKey, c22Same(g.Messages, req.Messages), c22Same(g.SignerPubKeys, req.SignerPubKeys), g.BlockHeight == req.BlockHeight, g.Version == req.Version), "C22-the-request-is-passed-on-unchanged")
}

// C22: what is no request does not reach the server and is not answered with success.
// bound: both handlers; every method of three or four characters; bodies that are empty, 0..4 bytes of no JSON document, or a document of another shape
// outside: bodies that start with a whole document and go on after it (the first document is the request)
// stub: the TSS server and the response writer record
// limit: 120s
func VerifH_C22_Refused() {
	s := &verifServer{}
	path := []string{"/keygen", "/keysign"}[verifrt.Choose("path", 2)]
	method := http.MethodPost
	var body []byte
	if verifrt.Choose("method", 2) == 1 {
		method = verifrt.Str("method", 3+verifrt.Choose("length", 2))
		body = c22JSON(keygen.NewRequest([]string{"k"}, 1, "v"))
	} else {
		switch verifrt.Choose("body", 5) {
		case 0:
			verifrt.RawIsMalformed()
			body = verifrt.Bytes("body", verifrt.Choose("size", 5))
		case 1:
			body = []byte(`[]`)
		case 2:
			body = []byte(`{"keys":"k","messages":"m"}`)
		case 3:
			body = []byte(`{"block_height":"1"}`)
		case 4:
			body = c22JSON(keygen.NewRequest([]string{"k"}, 1, "v"))
			body = body[:len(body)-1]
		}
	}
	w, _ := c22Do(s, method, path, body)
	if method != http.MethodPost {
		verifrt.Reach("method")
		verifrt.Assert(w.code == http.StatusMethodNotAllowed, "C22-wrong-method-is-405")
		verifrt.Assert(len(s.gens)+len(s.signs) == 0, "C22-the-server-is-not-called")
		return
	}
	if len(s.gens)+len(s.signs) > 0 {
		// the method is POST after all
		verifrt.Assert(len(body) > 0 && body[0] == '{' && body[len(body)-1] == '}', "C22-the-server-is-not-called")
		verifrt.Reach("post")
		return
	}
	verifrt.Reach("body")
	verifrt.Assert(w.code == http.StatusBadRequest, "C22-undecodable-body-is-400")
}

// C22: the router knows the end points with their methods only.
// bound: paths /keygen, /keysign, /ping, /p2pid and unknown ones with every usual method
// outside: /metrics
// stub: the TSS server and the response writer record
// limit: 120s
func VerifH_C22_Routes() {
	s := &verifServer{}
	h := &TssHttpServer{tssServer: s}
	path := []string{"/keygen", "/keysign", "/ping", "/p2pid", "/", "/keygen/x"}[verifrt.Choose("path", 6)]
	method := []string{"GET", "POST", "PUT", "DELETE", "HEAD"}[verifrt.Choose("method", 5)]
	var body []byte
	good := verifrt.Choose("body", 2) == 1
	if good {
		body = c22JSON(keygen.NewRequest([]string{"k"}, verifrt.Int64("height"), "v"))
	}
	w := &verifWriter{}
	r := &http.Request{Method: method, Body: &verifBody{Reader: bytes.NewReader(body)}, URL: &url.URL{Path: path}, Header: http.Header{}, RequestURI: path, Proto: "HTTP/1.1"}
	h.tssNewHandler().ServeHTTP(w, r)
	calls := len(s.gens) + len(s.signs)
	switch {
	case (path == "/keygen" || path == "/keysign") && method == "POST":
		if good {
			verifrt.Reach("forwarded")
			verifrt.Assert(calls == 1 && w.code == http.StatusOK, "C22-forwarded")
			verifrt.Assert((len(s.gens) == 1) == (path == "/keygen"), "C22-forwarded-to-the-right-call")
		} else {
			verifrt.Assert(calls == 0 && w.code == http.StatusBadRequest, "C22-undecodable-body-is-400")
		}
	case (path == "/ping" || path == "/p2pid") && method == "GET":
		verifrt.Reach("ping")
		verifrt.Assert(calls == 0 && (w.code == http.StatusOK || w.code == 0), "C22-ping")
		if path == "/p2pid" {
			verifrt.Assert(string(w.body) == "me", "C22-p2pid")
		}
	default:
		verifrt.Reach("refused")
		verifrt.Assert(calls == 0 && (w.code == http.StatusMethodNotAllowed || w.code == http.StatusNotFound), "C22-wrong-method-is-405")
	}
}

// C22: requests and responses of the sizes they have in use, and larger ones.
// bound: 0, 3, 14 or 100 keys of 76 characters, 0, 1, 20 or 100 messages of 44 or 6000 characters, as many signatures
// stub: the TSS server and the response writer record
func VerifH_C22_Large() {
	var keys, msgs []string
	var sigs []keysign.Signature
	for i, n := 0, []int{0, 3, 14, 100}[verifrt.Choose("keys", 4)]; i < n; i++ {
		keys = append(keys, strings.Repeat("thorpub1a", 8)+strconv.Itoa(1000+i))
	}
	size := []int{10, 1499}[verifrt.Choose("size", 2)]
	for i, n := 0, []int{0, 1, 20, 100}[verifrt.Choose("messages", 4)]; i < n; i++ {
		m := strings.Repeat("YWJj", size) + strconv.Itoa(1000+i)
		msgs = append(msgs, m)
		sigs = append(sigs, keysign.NewSignature(m, "r"+strconv.Itoa(i), "s"+strconv.Itoa(i), "AA=="))
	}
	s := &verifServer{sign: keysign.NewResponse(sigs, common.Success, blame.Blame{}), gen: keygen.NewResponse("pool", "address", common.Success, blame.Blame{})}
	if verifrt.Choose("keygen", 2) == 1 {
		w, _ := c22Do(s, http.MethodPost, "/keygen", c22JSON(keygen.NewRequest(keys, 10, "0.14.0")))
		verifrt.Reach("keygen")
		verifrt.Assert(len(s.gens) == 1 && len(s.signs) == 0, "C22-the-server-is-called-once")
		verifrt.Assert(c22Same(s.gens[0].Keys, keys) && s.gens[0].BlockHeight == 10 && s.gens[0].Version == "0.14.0", "C22-the-request-is-passed-on-unchanged")
		verifrt.Assert(w.code == http.StatusOK, "C22-answered-with-200")
		return
	}
	w, _ := c22Do(s, http.MethodPost, "/keysign", c22JSON(keysign.NewRequest("pool", msgs, 10, keys, "0.14.0")))
	verifrt.Reach("keysign")
	verifrt.Assert(len(s.signs) == 1 && len(s.gens) == 0, "C22-the-server-is-called-once")
	g := s.signs[0]
	verifrt.Assert(c22Same(g.Messages, msgs) && c22Same(g.SignerPubKeys, keys) && g.PoolPubKey == "pool" && g.BlockHeight == 10 && g.Version == "0.14.0", "C22-the-request-is-passed-on-unchanged")
	verifrt.Assert(w.code == http.StatusOK, "C22-answered-with-200")
	var r keysign.Response
	verifrt.Assert(json.Unmarshal(w.body, &r) == nil && len(r.Signatures) == len(sigs) && r.Status == common.Success, "C22-the-answer-is-a-response")
	for i := range r.Signatures {
		verifrt.Assert(r.Signatures[i] == sigs[i], "C22-answered-with-the-response-of-the-server")
	}
}
