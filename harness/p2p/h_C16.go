package p2p

import (
	"encoding/binary"
	"errors"

	"gitlab.com/thorchain/tss/go-tss/verifnet"
	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// C16: what is written is what is read, for short messages.
// bound: every message of up to 6 (quick) / 10 (thorough) bytes, contents symbolic; every fragmentation of the reads
// outside: longer messages are covered at the buffer boundaries only (see RoundTripLarge)
func VerifH_C16_RoundTripSmall() {
	max := 6
	if verifrt.Thorough() {
		max = 10
	}
	n := verifrt.Choose("len", max+1)
	msg := verifrt.Bytes("msg", n)
	keep := append([]byte(nil), msg...)
	w := &verifnet.Stream{}
	err := WriteStreamWithBuffer(msg, w)
	verifrt.Assert(err == nil, "C16-write-succeeds")
	r := &verifnet.Stream{In: w.Out, ReadSize: func(k int) int { return 1 + verifrt.Choose("frag", k) }}
	got, err := ReadStreamWithBuffer(r)
	verifrt.Reach("read")
	verifrt.Assert(err == nil, "C16-roundtrip-no-error")
	verifrt.Assert(len(got) == n, "C16-roundtrip-length")
	for i := 0; i < n && i < len(got); i++ {
		verifrt.Assert(got[i] == keep[i], "C16-roundtrip-bytes")
	}
}

// C16: round trip around the sizes of the buffers, in one or two fragments.
// bound: message lengths 4091..4097 and 8191..8193, three symbolic bytes, reads cut at any of six places
// outside: other lengths
func VerifH_C16_RoundTripLarge() {
	lens := []int{4091, 4092, 4093, 4096, 4097, 8192}
	n := lens[verifrt.Choose("len", len(lens))]
	msg := make([]byte, n)
	for i := range msg {
		msg[i] = byte(i * 7)
	}
	msg[0] = verifrt.Byte("first")
	msg[4090] = verifrt.Byte("middle")
	msg[n-1] = verifrt.Byte("last")
	keep := append([]byte(nil), msg...)
	w := &verifnet.Stream{}
	err := WriteStreamWithBuffer(msg, w)
	verifrt.Assert(err == nil, "C16-write-succeeds")
	cuts := []int{1, 3, 4, 5, 4096, n}
	cut := cuts[verifrt.Choose("cut", len(cuts))]
	first := true
	r := &verifnet.Stream{In: w.Out, ReadSize: func(k int) int {
		if first && cut < k {
			k = cut
		}
		first = false
		return k
	}}
	got, err := ReadStreamWithBuffer(r)
	verifrt.Reach("read")
	verifrt.Assert(err == nil, "C16-roundtrip-no-error")
	verifrt.Assert(len(got) == n, "C16-roundtrip-length")
	for i := 0; i < n && i < len(got); i++ {
		verifrt.Assert(got[i] == keep[i], "C16-roundtrip-bytes")
	}
}

// C16: messages up to the greatest payload that is accepted.
// bound: messages of 65531, 65535, 65536, 65541, 131072 and 200000 bytes, three symbolic bytes, read in pieces of at most 4096 bytes or in one
// outside: other lengths
func VerifH_C16_RoundTripHuge() {
	lens := []int{65531, 65535, 65536, 65541, 131072, 200000}
	n := lens[verifrt.Choose("len", len(lens))]
	msg := make([]byte, n)
	for i := 0; i < n; i += 97 {
		msg[i] = byte(i >> 3)
	}
	msg[0], msg[n/2], msg[n-1] = verifrt.Byte("first"), verifrt.Byte("middle"), verifrt.Byte("last")
	keep := append([]byte(nil), msg...)
	w := &verifnet.Stream{}
	err := WriteStreamWithBuffer(msg, w)
	verifrt.Assert(err == nil, "C16-write-succeeds")
	verifrt.Assert(len(w.Out) == n+LengthHeader, "C16-whole-frame-written")
	r := &verifnet.Stream{In: w.Out}
	if verifrt.Choose("pieces", 2) == 1 {
		r.ReadSize = func(k int) int {
			if k > 4096 {
				return 4096
			}
			return k
		}
	}
	got, err := ReadStreamWithBuffer(r)
	verifrt.Reach("read")
	verifrt.Assert(err == nil, "C16-roundtrip-no-error")
	verifrt.Assert(len(got) == n, "C16-roundtrip-length")
	ok := true
	for i := 0; i < n; i++ {
		if i%97 == 0 || i == n/2 || i == n-1 {
			ok = verifrt.And(ok, got[i] == keep[i])
		}
	}
	verifrt.Assert(ok, "C16-roundtrip-bytes")
}

// C16: any frame from the network gives exactly the announced bytes or an error.
// bound: header of 0..4 symbolic bytes (every announced length), body of 0..4 (quick) / 0..6 (thorough) symbolic bytes, then end of stream or a read error; every fragmentation
// outside: bodies of more than 6 bytes
func VerifH_C16_AnyFrame() {
	max := 4
	if verifrt.Thorough() {
		max = 6
	}
	hl := verifrt.Choose("hdrlen", LengthHeader+1)
	hdr := verifrt.Bytes("hdr", hl)
	var body []byte
	if hl == LengthHeader {
		body = verifrt.Bytes("body", verifrt.Choose("bodylen", max+1))
	}
	r := &verifnet.Stream{
		In:       append(append([]byte(nil), hdr...), body...),
		ReadSize: func(k int) int { return 1 + verifrt.Choose("frag", k) },
	}
	if verifrt.Choose("end", 2) == 1 {
		r.ReadErr = errors.New("stream reset")
	}
	got, err := ReadStreamWithBuffer(r)
	if hl < LengthHeader {
		verifrt.Reach("truncated header")
		verifrt.Assert(err != nil, "C16-truncated-header-is-an-error")
		return
	}
	l := uint64(hdr[0]) | uint64(hdr[1])<<8 | uint64(hdr[2])<<16 | uint64(hdr[3])<<24
	if l > uint64(len(body)) {
		verifrt.Reach("truncated body")
		verifrt.Assert(err != nil, "C16-truncated-body-is-an-error")
		return
	}
	verifrt.Reach("complete")
	verifrt.Assert(err == nil, "C16-complete-frame-is-read")
	verifrt.Assert(uint64(len(got)) == l, "C16-frame-length")
	for i := 0; i < len(got) && i < len(body); i++ {
		verifrt.Assert(got[i] == body[i], "C16-frame-bytes")
	}
}

// C16: a frame is refused exactly when it announces more than the maximum.
// bound: every announced length of 4096 bytes and more, on a stream that never ends
// outside: lengths below 4096 (the other harnesses sample 0..8 and the buffer boundaries)
func VerifH_C16_MaxPayload() {
	hdr := verifrt.Bytes("hdr", LengthHeader)
	l := uint64(hdr[0]) | uint64(hdr[1])<<8 | uint64(hdr[2])<<16 | uint64(hdr[3])<<24
	verifrt.Assume(l >= 4096)
	r := &c16Endless{hdr: hdr}
	got, err := ReadStreamWithBuffer(r)
	if l > MaxPayload {
		verifrt.Reach("too long")
		verifrt.Assert(err != nil, "C16-oversized-frame-is-an-error")
		return
	}
	verifrt.Reach("allowed")
	verifrt.Assert(err == nil, "C16-frame-up-to-the-maximum-is-read")
	verifrt.Assert(uint64(len(got)) == l, "C16-frame-length")
}

type c16Endless struct {
	verifnet.Stream
	hdr []byte
}

func (s *c16Endless) Read(p []byte) (int, error) {
	if len(s.hdr) > 0 {
		n := copy(p, s.hdr)
		s.hdr = s.hdr[n:]
		return n, nil
	}
	return len(p), nil
}

// C16: a failed or short write is an error; without one the whole frame is out.
// bound: messages of 0..4 bytes and of 4096+2 bytes; every write may be short by any amount or fail after any prefix (small), or fail/short at the first, second or third call (large); deadline failures
func VerifH_C16_WriteFaults() {
	n := verifrt.Choose("len", 6)
	large := n == 5
	if large {
		n = 4098
	}
	msg := make([]byte, n)
	copy(msg, verifrt.Bytes("msg", 4))
	calls := 0
	faulty := false
	w := &verifnet.Stream{}
	w.WriteFn = func(p []byte) (int, error) {
		calls++
		if calls > 3 || verifrt.Choose("fault", 2) == 0 {
			return len(p), nil
		}
		faulty = true
		k := 0
		if len(p) <= 8 {
			k = verifrt.Choose("accepted", len(p)+1)
		} else {
			k = []int{0, 1, len(p) - 1}[verifrt.Choose("accepted", 3)]
		}
		if k == len(p) || verifrt.Choose("error", 2) == 1 {
			return k, errors.New("write failed")
		}
		return k, nil
	}
	if verifrt.Choose("deadline", 2) == 1 {
		faulty = true
		w.DeadlineErr = errors.New("deadline not supported")
	}
	err := WriteStreamWithBuffer(msg, w)
	if faulty {
		verifrt.Reach("faulty")
		verifrt.Assert(err != nil, "C16-failed-write-is-an-error")
		return
	}
	verifrt.Reach("clean")
	verifrt.Assert(err == nil, "C16-write-succeeds")
	verifrt.Assert(len(w.Out) == n+LengthHeader, "C16-whole-frame-written")
	if len(w.Out) == n+LengthHeader {
		verifrt.Assert(binary.LittleEndian.Uint32(w.Out) == uint32(n), "C16-header-announces-length")
		for i := 0; i < n; i++ {
			verifrt.Assert(w.Out[LengthHeader+i] == msg[i], "C16-frame-bytes")
		}
	}
}

// C16: when the read deadline cannot be set nothing is returned as a message.
// bound: any 8 bytes on the stream
func VerifH_C16_ReadDeadline() {
	r := &verifnet.Stream{In: verifrt.Bytes("in", 8), DeadlineErr: errors.New("deadline not supported")}
	got, err := ReadStreamWithBuffer(r)
	verifrt.Reach("done")
	verifrt.Assert(err != nil && len(got) == 0, "C16-deadline-failure-is-an-error")
}
