// Package verifnet has the network stand-ins the harnesses share.
package verifnet

import (
	"context"
	"errors"
	"io"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/multiformats/go-multiaddr"

	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// Conn is the connection of a Stream.
type Conn struct {
	network.Conn
	Remote peer.ID
	Local  peer.ID
}

func (c *Conn) RemotePeer() peer.ID { return c.Remote }
func (c *Conn) LocalPeer() peer.ID  { return c.Local }

// Stream records what is written and serves In to the reader.
type Stream struct {
	network.Stream
	Peer        peer.ID
	Proto       protocol.ID
	In          []byte
	Endless     bool          // reads never end
	ReadSize    func(int) int // fragment size for a read of up to n bytes
	ReadErr     error         // error at the end of In (io.EOF when nil)
	Out         []byte        // everything written
	WriteFn     func(p []byte) (int, error)
	DeadlineErr error
	Resets      int
	Closes      int
	OnReset     func()
	ResetErr    error
	OnWritten   func(s *Stream)
}

func (s *Stream) Read(p []byte) (int, error) {
	if s.Endless {
		return len(p), nil
	}
	if len(s.In) == 0 {
		if s.ReadErr != nil {
			return 0, s.ReadErr
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if n > len(s.In) {
		n = len(s.In)
	}
	if s.ReadSize != nil {
		n = s.ReadSize(n)
	}
	copy(p, s.In[:n])
	s.In = s.In[n:]
	return n, nil
}

func (s *Stream) Write(p []byte) (int, error) {
	if s.WriteFn != nil {
		n, err := s.WriteFn(p)
		if n > 0 {
			s.Out = append(s.Out, p[:n]...)
		}
		return n, err
	}
	s.Out = append(s.Out, p...)
	if s.OnWritten != nil {
		s.OnWritten(s)
	}
	return len(p), nil
}

func (s *Stream) Close() error { s.Closes++; return nil }
func (s *Stream) Reset() error {
	s.Resets++
	if s.OnReset != nil {
		s.OnReset()
	}
	return s.ResetErr
}
func (s *Stream) CloseRead() error                   { return nil }
func (s *Stream) CloseWrite() error                  { return nil }
func (s *Stream) SetDeadline(t time.Time) error      { return s.DeadlineErr }
func (s *Stream) SetReadDeadline(t time.Time) error  { return s.DeadlineErr }
func (s *Stream) SetWriteDeadline(t time.Time) error { return s.DeadlineErr }
func (s *Stream) Protocol() protocol.ID              { return s.Proto }
func (s *Stream) SetProtocol(p protocol.ID)          { s.Proto = p }
func (s *Stream) Conn() network.Conn                 { return &Conn{Remote: s.Peer} }
func (s *Stream) Stat() network.Stat                 { return network.Stat{} }

// Host hands out recording streams.
type Host struct {
	host.Host
	Me       peer.ID
	Streams  []*Stream
	Handlers map[protocol.ID]network.StreamHandler
	Down     map[peer.ID]bool
	Hang     map[peer.ID]bool // opening a stream or connecting takes for ever
	Refuse   map[peer.ID]bool // connecting fails
	Dialed   []peer.AddrInfo
	Open     func(p peer.ID, proto protocol.ID) (*Stream, error)
	Opened   func(s *Stream)
	Store    peerstore.Peerstore
	mu       sync.Mutex
}

func NewHost(me peer.ID) *Host {
	return &Host{Me: me, Handlers: map[protocol.ID]network.StreamHandler{}, Down: map[peer.ID]bool{}}
}

func (h *Host) ID() peer.ID { return h.Me }

func (h *Host) SetStreamHandler(p protocol.ID, f network.StreamHandler) { h.Handlers[p] = f }
func (h *Host) RemoveStreamHandler(p protocol.ID)                       { delete(h.Handlers, p) }
func (h *Host) Peerstore() peerstore.Peerstore                          { return h.Store }
func (h *Host) Close() error                                            { return nil }
func (h *Host) Addrs() []multiaddr.Multiaddr                            { return nil }

// locked keeps native runs in order; symbolic ones switch goroutines at no such place.
func (h *Host) locked(f func()) {
	if verifrt.Symbolic() {
		f()
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	f()
}

func (h *Host) Connect(ctx context.Context, pi peer.AddrInfo) error {
	h.locked(func() { h.Dialed = append(h.Dialed, pi) })
	if h.Hang[pi.ID] {
		<-ctx.Done()
		return ctx.Err()
	}
	if h.Refuse[pi.ID] {
		return errors.New("connection refused")
	}
	return nil
}

func (h *Host) NewStream(ctx context.Context, p peer.ID, ps ...protocol.ID) (network.Stream, error) {
	if h.Down[p] {
		return nil, errors.New("peer is down")
	}
	if h.Hang[p] {
		<-ctx.Done()
		return nil, ctx.Err()
	}
	s := &Stream{Peer: p, Proto: ps[0]}
	if h.Open != nil {
		var err error
		s, err = h.Open(p, ps[0])
		if err != nil {
			return nil, err
		}
	}
	h.locked(func() { h.Streams = append(h.Streams, s) })
	if h.Opened != nil {
		h.Opened(s)
	}
	return s, nil
}
