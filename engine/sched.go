package main

// Goroutines, channels, locks and virtual time.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) spawnGor(g *Gor, fn Value, args []Value) {
	c, ok := fn.(*Closure)
	if !ok {
		in.unsupported("go %T", fn)
	}
	if c == nil {
		in.nilDeref()
	}
	if in.initing > 0 {
		return // background goroutines started by package initialisers are not run
	}
	ng := &Gor{id: len(in.gors)}
	if len(in.gors) > 1000 {
		in.fail("bound", "too many goroutines")
	}
	if c.native != nil {
		c.native(in, ng, args)
		return
	}
	if m := in.eng.intrinsic(c.fn); m != nil {
		// run the intrinsic in a tiny goroutine: only non-blocking ones are supported
		_, st := m(in, ng, args, c.fn)
		if st == stBlock {
			in.unsupported("go statement on blocking intrinsic %s", c.fn)
		}
		if st != stInterpret {
			return
		}
	}
	f := in.newFrame(c.fn, args, c.env)
	ng.frames = []*frame{f}
	ng.name = c.fn.String()
	in.gors = append(in.gors, ng)
	if g != nil && g.id >= 0 {
		g.tick()
		ng.vc.join(g.vc)
		g.tick()
	}
	ng.tick()
}

func (g *Gor) ready() bool {
	if g.done {
		return false
	}
	if g.waits != nil {
		return g.resolved != nil
	}
	if g.pred != nil {
		return g.pred()
	}
	return true
}

func (in *Interp) runnable(except *Gor) []*Gor {
	var r []*Gor
	for _, g := range in.gors {
		if g != except && g.ready() {
			r = append(r, g)
		}
	}
	return r
}

// quiesced reports whether no goroutine other than g could run (used by Quiesce).
func (in *Interp) quiesced(self *Gor) bool {
	for _, g := range in.gors {
		if g == self || g.done {
			continue
		}
		if g.ready() {
			return false
		}
	}
	return true
}

func (in *Interp) nextTimer() *timer {
	var best *timer
	for _, t := range in.timers {
		if t.live && (best == nil || t.when < best.when || (t.when == best.when && t.id < best.id)) {
			best = t
		}
	}
	return best
}

func (in *Interp) fireTimer(t *timer) {
	if t.when > in.now {
		in.now = t.when
	}
	if t.per > 0 {
		t.when = in.now + t.per
	} else {
		t.live = false
	}
	t.fire()
}

func (in *Interp) addTimer(d int64, fire func()) *timer {
	in.timerSeq++
	if d < 0 {
		d = 0
	}
	t := &timer{id: in.timerSeq, when: in.now + d, fire: fire, live: true}
	in.timers = append(in.timers, t)
	return t
}

// runMain runs until goroutine 0 ends.
func (in *Interp) runMain() {
	main := in.gors[0]
	cur := main
	for !main.done {
		if cur == nil {
			cur = in.pick()
		}
		in.cur = cur
		st := in.step(cur)
		switch st {
		case stOK:
		case stDone:
			if cur == main {
				return
			}
			cur = nil
		case stBlock:
			cur = nil
		case stYield:
			cur = in.cur
			if cur.done || !cur.ready() {
				cur = nil
			}
		}
	}
}

func (in *Interp) pick() *Gor {
	for {
		rs := in.runnable(nil)
		var t *timer
		if in.timersAny && in.fireBudget > 0 {
			t = in.nextTimer()
		}
		if len(rs) == 0 {
			nt := in.nextTimer()
			if nt == nil {
				in.report("deadlock", "deadlock", "all goroutines are blocked")
			}
			in.steps += 100
			in.fireTimer(nt)
			continue
		}
		n := len(rs)
		if t != nil {
			n++
		}
		k := 0
		if n > 1 && in.schedMode == 1 {
			k = in.choose(n, "sched")
			in.nsched++
		} else if n > 1 {
			// round robin after the last goroutine
			last := -1
			if in.cur != nil {
				last = in.cur.id
			}
			for i, g := range rs {
				if g.id > last {
					k = i
					break
				}
			}
		}
		if k == len(rs) {
			in.fireBudget--
			in.fireTimer(t)
			continue
		}
		return rs[k]
	}
}

// preemptPoint may switch to another goroutine before a visible operation.
// It returns true when the current instruction must be re-executed later.
func (in *Interp) preemptPoint(g *Gor) bool {
	if in.preempt <= 0 || in.initing > 0 || g.nested > 0 || g.id < 0 {
		return false
	}
	if g.noAct {
		g.noAct = false
		return false
	}
	rs := in.runnable(g)
	if len(rs) == 0 {
		return false
	}
	k := in.choose(1+len(rs), "preempt")
	if k == 0 {
		return false
	}
	in.nsched++
	in.preempt--
	g.noAct = true
	in.cur = rs[k-1]
	return true
}

// ---------- channels

func (in *Interp) chanTouch(c *ChanV) {
	if in.initing > 0 || c.epoch == in.w.epoch {
		return
	}
	old := *c
	old.buf = append([]Value(nil), c.buf...)
	c.epoch = in.w.epoch
	in.undo = append(in.undo, undoRec{f: func() { *c = old }})
}

func (in *Interp) waiter(c *ChanV, dir types.ChanDir) (*Gor, *waitCase) {
	var best *Gor
	var bw *waitCase
	for _, g := range in.gors {
		if g.done || g.waits == nil || g.resolved != nil {
			continue
		}
		for i := range g.waits {
			if g.waits[i].ch == c && g.waits[i].dir == dir {
				if best == nil || g.wakeTick < best.wakeTick {
					best, bw = g, &g.waits[i]
				}
				break
			}
		}
	}
	return best, bw
}

// trySend attempts a send without blocking.
func (in *Interp) trySend(c *ChanV, v Value) bool {
	if c.closed {
		in.throw(Iface{t: in.eng.rtErrType, v: "send on closed channel"})
	}
	if g, w := in.waiter(c, types.RecvOnly); g != nil {
		g.resolved = &resolution{idx: w.idx, val: v, ok: true}
		in.handoff(in.cur, g)
		return true
	}
	if len(c.buf) < c.cap {
		in.syncBoth(c, in.cur)
		in.chanTouch(c)
		nb := make([]Value, len(c.buf)+1)
		copy(nb, c.buf)
		nb[len(c.buf)] = v
		c.buf = nb
		return true
	}
	return false
}

func (in *Interp) tryRecv(c *ChanV) (Value, bool, bool) { // val, ok, done
	if len(c.buf) > 0 {
		in.chanTouch(c)
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if g, w := in.waiter(c, types.SendOnly); g != nil {
			c.buf = append(c.buf, w.val)
			g.resolved = &resolution{idx: w.idx, ok: true}
			in.syncBoth(c, g)
		}
		in.syncBoth(c, in.cur)
		return v, true, true
	}
	if g, w := in.waiter(c, types.SendOnly); g != nil {
		in.handoff(in.cur, g)
		v := w.val
		g.resolved = &resolution{idx: w.idx, ok: true}
		return v, true, true
	}
	if c.closed {
		in.acquire(c, in.cur)
		return nil, false, true
	}
	return nil, false, false
}

func (in *Interp) closeChan(c *ChanV) {
	if c == nil {
		in.throw(in.runtimeError("close of nil channel"))
	}
	if c.closed {
		in.throw(Iface{t: in.eng.rtErrType, v: "close of closed channel"})
	}
	in.chanTouch(c)
	c.closed = true
	in.release(c, in.cur)
	for {
		g, w := in.waiter(c, types.RecvOnly)
		if g == nil {
			break
		}
		g.resolved = &resolution{idx: w.idx, ok: false}
		in.acquire(c, g)
	}
	for {
		g, w := in.waiter(c, types.SendOnly)
		if g == nil {
			break
		}
		g.resolved = &resolution{idx: w.idx, closed: true}
	}
}

func (in *Interp) block(g *Gor, ws []waitCase) {
	in.w.tick++
	g.wakeTick = in.w.tick
	g.waits = ws
	if g.waits == nil {
		g.waits = []waitCase{}
	}
	g.resolved = nil
}

func recvVal(in *Interp, v Value, ok bool, t types.Type, commaOk bool) Value {
	if commaOk {
		et := t.(*types.Tuple).At(0).Type()
		if v == nil || !ok {
			v = zero(et)
		}
		return Tuple{v, ok}
	}
	if v == nil || !ok {
		v = zero(t)
	}
	return v
}

// chanOp handles Send and receive UnOp.
func (in *Interp) chanOp(g *Gor, f *frame, ins ssa.Instruction) status {
	if g.resolved != nil { // woken
		r := g.resolved
		g.waits, g.resolved = nil, nil
		if r.closed {
			in.throw(Iface{t: in.eng.rtErrType, v: "send on closed channel"})
		}
		if u, ok := ins.(*ssa.UnOp); ok {
			in.set(f, u, recvVal(in, r.val, r.ok, u.Type(), u.CommaOk))
		}
		return stOK
	}
	if in.preemptPoint(g) {
		f.ip--
		return stYield
	}
	switch x := ins.(type) {
	case *ssa.Send:
		c, _ := in.get(f, x.Chan).(*ChanV)
		v := copyVal(in.get(f, x.X))
		if c == nil {
			f.ip--
			in.block(g, nil)
			return stBlock
		}
		if in.trySend(c, v) {
			return stOK
		}
		f.ip--
		in.block(g, []waitCase{{ch: c, dir: types.SendOnly, val: v}})
		return stBlock
	case *ssa.UnOp:
		c, _ := in.get(f, x.X).(*ChanV)
		if c == nil {
			f.ip--
			in.block(g, nil)
			return stBlock
		}
		if v, ok, done := in.tryRecv(c); done {
			in.set(f, x, recvVal(in, v, ok, x.Type(), x.CommaOk))
			return stOK
		}
		f.ip--
		in.block(g, []waitCase{{ch: c, dir: types.RecvOnly}})
		return stBlock
	}
	return stOK
}

func (in *Interp) selectOp(g *Gor, f *frame, x *ssa.Select) status {
	finish := func(idx int, val Value, ok bool) {
		tt := x.Type().(*types.Tuple)
		r := make(Tuple, tt.Len())
		r[0] = uint64(int64(idx))
		r[1] = ok
		ri := 2
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				if i == idx && val != nil && ok {
					r[ri] = val
				} else {
					r[ri] = zero(tt.At(ri).Type())
				}
				ri++
			}
		}
		in.set(f, x, r)
	}
	if g.resolved != nil {
		r := g.resolved
		g.waits, g.resolved = nil, nil
		if r.closed {
			in.throw(Iface{t: in.eng.rtErrType, v: "send on closed channel"})
		}
		finish(r.idx, r.val, r.ok)
		return stOK
	}
	if in.preemptPoint(g) {
		f.ip--
		return stYield
	}
	var ready []int
	chans := make([]*ChanV, len(x.States))
	for i, s := range x.States {
		c, _ := in.get(f, s.Chan).(*ChanV)
		chans[i] = c
		if c == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			w, _ := in.waiter(c, types.RecvOnly)
			if c.closed || len(c.buf) < c.cap || w != nil {
				ready = append(ready, i)
			}
		} else {
			w, _ := in.waiter(c, types.SendOnly)
			if c.closed || len(c.buf) > 0 || w != nil {
				ready = append(ready, i)
			}
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = in.choose(len(ready), "select")
			in.nsched++
		}
		i := ready[k]
		s := x.States[i]
		if s.Dir == types.SendOnly {
			in.trySend(chans[i], copyVal(in.get(f, s.Send)))
			finish(i, nil, false)
		} else {
			v, ok, _ := in.tryRecv(chans[i])
			finish(i, v, ok)
		}
		return stOK
	}
	if !x.Blocking {
		finish(-1, nil, false)
		return stOK
	}
	var ws []waitCase
	for i, s := range x.States {
		if chans[i] == nil {
			continue
		}
		w := waitCase{ch: chans[i], dir: s.Dir, idx: i}
		if s.Dir == types.SendOnly {
			w.val = copyVal(in.get(f, s.Send))
		}
		ws = append(ws, w)
	}
	f.ip--
	in.block(g, ws)
	return stBlock
}

// ---------- locks

func (in *Interp) mu(p *Value) *mutexState {
	m, ok := in.mutexes[p]
	if !ok {
		m = &mutexState{}
		in.mutexes[p] = m
	}
	return m
}

func (in *Interp) ptr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		in.unsupported("expected pointer, got %T", v)
	}
	if p == nil {
		in.nilDeref()
	}
	return p
}

func (in *Interp) fatal(msg string) {
	in.report("panic", "fatal error: "+msg, "")
}

func lockIntrinsics(reg func(string, intrinsicFn)) {
	lock := func(write bool) intrinsicFn {
		return func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
			m := in.mu(in.ptr(a[0]))
			g.pred = nil
			if in.preemptPoint(g) {
				return nil, stYield
			}
			if m.locked || (write && m.readers > 0) {
				g.pred = func() bool { return !m.locked && (!write || m.readers == 0) }
				return nil, stBlock
			}
			if write {
				m.locked = true
				m.owner = g.id
				in.acquire(&m.rtag, g)
			} else {
				m.readers++
			}
			in.acquire(m, g)
			return nil, stOK
		}
	}
	unlock := func(write bool) intrinsicFn {
		return func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
			m := in.mu(in.ptr(a[0]))
			if write {
				if !m.locked {
					in.fatal("sync: unlock of unlocked mutex")
				}
				m.locked = false
				in.release(m, g)
			} else {
				if m.readers == 0 {
					in.fatal("sync: RUnlock of unlocked RWMutex")
				}
				m.readers--
				in.release(&m.rtag, g)
			}
			return nil, stOK
		}
	}
	try := func(write bool) intrinsicFn {
		return func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
			m := in.mu(in.ptr(a[0]))
			if m.locked || (write && m.readers > 0) {
				return false, stOK
			}
			if write {
				m.locked = true
				in.acquire(&m.rtag, g)
			} else {
				m.readers++
			}
			in.acquire(m, g)
			return true, stOK
		}
	}
	// condition variables: tickets are notified in the order in which they were drawn
	type tickets struct {
		next, upto uint64
	}
	list := func(in *Interp, v Value) *tickets {
		k := fmt.Sprintf("nl:%p", in.ptr(v))
		l, ok := in.side[k].(*tickets)
		if !ok {
			l = &tickets{}
			in.side[k] = l
		}
		return l
	}
	reg("sync.runtime_notifyListCheck", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) { return nil, stOK })
	reg("(*sync.copyChecker).check", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) { return nil, stOK })
	reg("sync.runtime_notifyListAdd", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		l := list(in, a[0])
		l.next++
		return l.next - 1, stOK
	})
	reg("sync.runtime_notifyListWait", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		l, t := list(in, a[0]), in.concretize(a[1])
		g.pred = nil
		if l.upto <= t {
			g.pred = func() bool { return l.upto > t }
			return nil, stBlock
		}
		in.acquire(l, g)
		return nil, stOK
	})
	reg("sync.runtime_notifyListNotifyAll", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		l := list(in, a[0])
		in.release(l, g)
		l.upto = l.next
		return nil, stOK
	})
	reg("sync.runtime_notifyListNotifyOne", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		l := list(in, a[0])
		in.release(l, g)
		if l.upto < l.next {
			l.upto++
		}
		return nil, stOK
	})
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)", "(*internal/sync.Mutex)"} {
		reg(t+".Lock", lock(true))
		reg(t+".Unlock", unlock(true))
		reg(t+".TryLock", try(true))
	}
	reg("(*sync.RWMutex).RLock", lock(false))
	reg("(*sync.RWMutex).RUnlock", unlock(false))
	reg("(*sync.RWMutex).TryRLock", try(false))
	reg("(*sync.WaitGroup).Add", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		in.release(in.wg(in.ptr(a[0])), g)
		in.wgAdd(in.ptr(a[0]), int64(in.concretize(a[1])))
		return nil, stOK
	})
	reg("(*sync.WaitGroup).Done", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		in.release(in.wg(in.ptr(a[0])), g)
		in.wgAdd(in.ptr(a[0]), -1)
		return nil, stOK
	})
	reg("(*sync.WaitGroup).Wait", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		c := in.wg(in.ptr(a[0]))
		g.pred = nil
		if *c > 0 {
			g.pred = func() bool { return *c == 0 }
			return nil, stBlock
		}
		in.acquire(c, g)
		return nil, stOK
	})
}

func (in *Interp) wg(p *Value) *int64 {
	c, ok := in.wgs[p]
	if !ok {
		c = new(int64)
		in.wgs[p] = c
	}
	return c
}

func (in *Interp) wgAdd(p *Value, d int64) {
	c := in.wg(p)
	*c += d
	if *c < 0 {
		in.throw(Iface{t: types.Typ[types.String], v: "sync: negative WaitGroup counter"})
	}
}

var _ = token.ARROW
