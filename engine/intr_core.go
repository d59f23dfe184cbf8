package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type regFn func(name string, f intrinsicFn)

// pure wraps a non-blocking model.
func pure(f func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value) intrinsicFn {
	return func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) { return f(in, g, a, fn), stOK }
}

func registerIntrinsics(e *Engine) {
	reg := func(name string, f intrinsicFn) { e.intr[name] = f }
	lockIntrinsics(reg)
	rtIntrinsics(reg)
	atomicIntrinsics(reg)
	syncIntrinsics(reg)
	timeIntrinsics(reg)
	stringIntrinsics(reg)
	miscIntrinsics(reg)
	fmtIntrinsics(reg)
	cryptoIntrinsics(reg)
	jsonIntrinsics(reg)
	protoIntrinsics(reg)
	fsIntrinsics(reg)
	netIntrinsics(reg)
	textIntrinsics(reg)
}

func (in *Interp) newVar(name string, w int, kind string) *Term {
	k := "n:" + name
	n, _ := in.side[k].(int)
	in.side[k] = n + 1
	full := fmt.Sprintf("%s#%d", name, n)
	t := in.ctx.Var(full, w)
	in.inputs = append(in.inputs, inputRec{Name: full, Kind: kind, Vals: []Value{t}})
	return t
}

// fresh makes a variable that is not a harness input.
func (in *Interp) fresh(name string, w int) *Term {
	k := "f:" + name
	n, _ := in.side[k].(int)
	in.side[k] = n + 1
	return in.ctx.Var(fmt.Sprintf("$%s#%d", name, n), w)
}

func (in *Interp) inputName(name string) string {
	k := "n:" + name
	n, _ := in.side[k].(int)
	in.side[k] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func (in *Interp) str(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i := range s.b {
			b[i] = byte(in.concretize(s.b[i]))
		}
		return string(b)
	}
	in.unsupported("expected a concrete string, got %T", v)
	return ""
}

func rtIntrinsics(reg regFn) {
	p := rtPkg + "."
	scalar := func(name string, w int) {
		reg(p+name, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			return in.newVar(in.str(a[0]), w, name)
		}))
	}
	scalar("Bool", SBool)
	scalar("Byte", 8)
	scalar("Int", 64)
	scalar("Int64", 64)
	scalar("Uint64", 64)
	scalar("Uint32", 32)
	reg(p+"Range", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		t := in.newVar(in.str(a[0]), 64, "Range")
		in.assume(lower(in.ctx.Cmp(OSle, in.bv(a[1], 64), t)))
		in.assume(lower(in.ctx.Cmp(OSle, t, in.bv(a[2], 64))))
		return t
	}))
	reg(p+"Choose", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n := in.inputName(in.str(a[0]))
		k := in.choose(int(in.concretize(a[1])), n)
		in.inputs = append(in.inputs, inputRec{Name: n, Kind: "Choose", Vals: []Value{uint64(k)}})
		return uint64(k)
	}))
	bytesIn := func(in *Interp, a []Value) []Value {
		n := in.inputName(in.str(a[0]))
		k := int(in.concretize(a[1]))
		vs := make([]Value, k)
		for i := range vs {
			vs[i] = in.ctx.Var(fmt.Sprintf("%s[%d]", n, i), 8)
		}
		in.inputs = append(in.inputs, inputRec{Name: n, Kind: "Bytes", Vals: append([]Value(nil), vs...)})
		return vs
	}
	reg(p+"Bytes", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return SliceV{s: bytesIn(in, a)} }))
	reg(p+"Str", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return mkStr(bytesIn(in, a)) }))
	reg(p+"Assume", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { in.assume(a[0]); return nil }))
	reg(p+"Assert", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.assert(a[0], in.str(a[1]))
		return nil
	}))
	reg(p+"Reach", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.reached[in.str(a[0])] = true
		return nil
	}))
	reg(p+"Note", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.notes = append(in.notes, in.showStr(a[0]))
		return nil
	}))
	reg(p+"Quiesce", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		if g.pred != nil {
			g.pred = nil
			in.barrier()
			return nil, stOK
		}
		if in.quiesced(g) {
			in.barrier()
			return nil, stOK
		}
		g.pred = func() bool { return in.quiesced(g) }
		return nil, stBlock
	})
	reg(p+"Advance", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		if g.aux == nil {
			fired := false
			in.addTimer(int64(in.concretize(a[0]))*1e6, func() { fired = true })
			g.aux = &fired
			f := &fired
			g.pred = func() bool { return *f && in.quiesced(g) }
			return nil, stBlock
		}
		g.aux, g.pred = nil, nil
		in.barrier()
		return nil, stOK
	})
	reg(p+"MapOrders", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.mapMode = 0
		if a[0] == true {
			in.mapMode = 1
			in.mapDevs = -1
		}
		return nil
	}))
	reg(p+"MapReverse", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.mapDevs = -2
		return nil
	}))
	reg(p+"MapDeviations", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.mapMode = 1
		in.mapDevs = int(in.concretize(a[0]))
		return nil
	}))
	reg(p+"Sched", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.schedMode = 1
		in.preempt = int(in.concretize(a[0]))
		return nil
	}))
	reg(p+"NoSched", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.schedMode, in.preempt = 0, 0
		return nil
	}))
	reg(p+"Races", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { in.raceCells = true; return nil }))
	reg(p+"TimersAny", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.timersAny = true
		in.fireBudget = int(in.concretize(a[0]))
		return nil
	}))
	reg(p+"Goroutines", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n := 0
		for _, x := range in.gors {
			if !x.done && x != in.gors[0] {
				n++
			}
		}
		return uint64(n)
	}))
	reg(p+"Symbolic", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return true }))
	reg(p+"Thorough", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return thoroughTier }))
	reg(p+"And", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		var r Value = true
		for _, x := range a[0].(SliceV).s {
			r = in.and(r, x)
		}
		return r
	}))
	reg(p+"Or", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		var r Value = true
		for _, x := range a[0].(SliceV).s {
			r = in.and(r, in.not(x))
		}
		return in.not(r)
	}))
	reg(p+"Implies", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return in.not(in.and(a[0], in.not(a[1])))
	}))
	reg(p+"TempDir", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n, _ := in.side["tmpdir"].(int)
		in.side["tmpdir"] = n + 1
		d := fmt.Sprintf("/vscratch/h%d", n)
		in.fs().mkdirAll(d)
		return d
	}))
}

// ---------- atomics

func atomicIntrinsics(reg0 regFn) {
	reg := func(n string, f intrinsicFn) {
		reg0(n, func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
			if p, ok := a[0].(*Value); ok && p != nil {
				in.syncBoth(p, g)
			}
			return f(in, g, a, fn)
		})
	}
	pkgs := []string{"sync/atomic.", "internal/runtime/atomic."}
	pre := func(in *Interp, g *Gor) bool { return false }
	_ = pre
	for _, p := range pkgs {
		for _, t := range []struct {
			n string
			w int
		}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
			w := t.w
			reg(p+"Load"+t.n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return *in.ptr(a[0]) }))
			reg(p+"Store"+t.n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
				in.storeTo(in.ptr(a[0]), a[1])
				return nil
			}))
			reg(p+"Add"+t.n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
				q := in.ptr(a[0])
				v := lower(in.ctx.Bin(OAdd, in.bv(*q, w), in.bv(a[1], w)))
				in.storeTo(q, v)
				return v
			}))
			reg(p+"Swap"+t.n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
				q := in.ptr(a[0])
				v := *q
				in.storeTo(q, a[1])
				return v
			}))
			reg(p+"CompareAndSwap"+t.n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
				q := in.ptr(a[0])
				if in.branch(in.eq(*q, a[1])) {
					in.storeTo(q, a[2])
					return true
				}
				return false
			}))
			reg(p+"And"+t.n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
				q := in.ptr(a[0])
				v := *q
				in.storeTo(q, lower(in.ctx.Bin(OBAnd, in.bv(v, w), in.bv(a[1], w))))
				return v
			}))
			reg(p+"Or"+t.n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
				q := in.ptr(a[0])
				v := *q
				in.storeTo(q, lower(in.ctx.Bin(OBOr, in.bv(v, w), in.bv(a[1], w))))
				return v
			}))
		}
		reg(p+"LoadPointer", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return asUPtr(*in.ptr(a[0])) }))
		reg(p+"StorePointer", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			in.storeTo(in.ptr(a[0]), a[1])
			return nil
		}))
		reg(p+"SwapPointer", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			q := in.ptr(a[0])
			v := asUPtr(*q)
			in.storeTo(q, a[1])
			return v
		}))
		reg(p+"CompareAndSwapPointer", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			q := in.ptr(a[0])
			if in.branch(in.eq(asUPtr(*q), a[1])) {
				in.storeTo(q, a[2])
				return true
			}
			return false
		}))
	}
	val := func(a Value) *Value { return &(*a.(*Value)).(Struct)[0] }
	reg("(*sync/atomic.Value).Load", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { in.ptr(a[0]); return *val(a[0]) }))
	reg("(*sync/atomic.Value).Store", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.ptr(a[0])
		in.storeTo(val(a[0]), a[1])
		return nil
	}))
	reg("(*sync/atomic.Value).Swap", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.ptr(a[0])
		v := *val(a[0])
		in.storeTo(val(a[0]), a[1])
		return v
	}))
	reg("(*sync/atomic.Value).CompareAndSwap", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.ptr(a[0])
		if in.branch(in.eq(*val(a[0]), a[1])) {
			in.storeTo(val(a[0]), a[2])
			return true
		}
		return false
	}))
}

func asUPtr(v Value) UPtr {
	if u, ok := v.(UPtr); ok {
		return u
	}
	return UPtr{v: v}
}

// ---------- sync.Map, Pool

func (in *Interp) smap(p *Value) *MapV {
	k := fmt.Sprintf("sm:%p", p)
	if in.initing > 0 {
		m := in.w.syncMap[p]
		if m == nil {
			m = in.newMap()
			in.w.syncMap[p] = m
		}
		return m
	}
	if m, ok := in.side[k].(*MapV); ok {
		return m
	}
	m := in.newMap()
	if b := in.w.syncMap[p]; b != nil {
		for _, e := range b.ents {
			if !e.deleted {
				in.mapSet(m, e.k, e.v)
			}
		}
	}
	in.side[k] = m
	return m
}

// poolV is what a sync.Pool holds.
type poolV struct {
	private Value
	has     bool
	shared  []Value
}

func syncIntrinsics(reg regFn) {
	for _, t := range []string{"(*sync.Map)."} {
		// every operation is a scheduling point
		op := func(f func(in *Interp, g *Gor, m *MapV, a []Value, fn *ssa.Function) Value) intrinsicFn {
			return func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
				if in.preemptPoint(g) {
					return nil, stYield
				}
				in.syncBoth(in.ptr(a[0]), g)
				return f(in, g, in.smap(in.ptr(a[0])), a, fn), stOK
			}
		}
		reg(t+"Load", op(func(in *Interp, g *Gor, m *MapV, a []Value, fn *ssa.Function) Value {
			if e := in.mapFind(m, a[1]); e != nil {
				return Tuple{e.v, true}
			}
			return Tuple{Iface{}, false}
		}))
		reg(t+"Store", op(func(in *Interp, g *Gor, m *MapV, a []Value, fn *ssa.Function) Value {
			in.mapSet(m, a[1], a[2])
			return nil
		}))
		reg(t+"Delete", op(func(in *Interp, g *Gor, m *MapV, a []Value, fn *ssa.Function) Value {
			in.mapDelete(m, a[1])
			return nil
		}))
		reg(t+"LoadOrStore", op(func(in *Interp, g *Gor, m *MapV, a []Value, fn *ssa.Function) Value {
			if e := in.mapFind(m, a[1]); e != nil {
				return Tuple{e.v, true}
			}
			in.mapSet(m, a[1], a[2])
			return Tuple{a[2], false}
		}))
		reg(t+"LoadAndDelete", op(func(in *Interp, g *Gor, m *MapV, a []Value, fn *ssa.Function) Value {
			if e := in.mapFind(m, a[1]); e != nil {
				v := e.v
				in.mapDelete(m, a[1])
				return Tuple{v, true}
			}
			return Tuple{Iface{}, false}
		}))
		reg(t+"Swap", op(func(in *Interp, g *Gor, m *MapV, a []Value, fn *ssa.Function) Value {
			if e := in.mapFind(m, a[1]); e != nil {
				v := e.v
				in.mapSet(m, a[1], a[2])
				return Tuple{v, true}
			}
			in.mapSet(m, a[1], a[2])
			return Tuple{Iface{}, false}
		}))
		reg(t+"Range", op(func(in *Interp, g *Gor, m *MapV, a []Value, fn *ssa.Function) Value {
			var todo []*mapEntry
			for _, e := range m.ents {
				if !e.deleted {
					todo = append(todo, e)
				}
			}
			for len(todo) > 0 {
				i := 0
				if in.mapMode == 1 && in.initing == 0 && len(todo) > 1 {
					i = in.pickOrder(len(todo))
				}
				e := todo[i]
				todo = append(append([]*mapEntry(nil), todo[:i]...), todo[i+1:]...)
				if e.deleted {
					continue
				}
				if !in.branch(in.callOn(g, a[1].(*Closure), []Value{e.k, e.v})) {
					break
				}
			}
			return nil
		}))
	}
	// as for one processor: the private slot first, then the most recent one
	pool := func(in *Interp, v Value, g *Gor) *poolV {
		p := in.ptr(v)
		in.syncBoth(p, g)
		k := fmt.Sprintf("pool:%p", p)
		if q, ok := in.side[k].(*poolV); ok {
			return q
		}
		q := &poolV{}
		in.side[k] = q
		return q
	}
	reg("(*sync.Pool).Get", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		if in.initing == 0 {
			q := pool(in, a[0], g)
			if q.has {
				q.has = false
				return q.private
			}
			if n := len(q.shared); n > 0 {
				v := q.shared[n-1]
				q.shared = q.shared[:n-1]
				return v
			}
		}
		st := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		c := (*in.ptr(a[0])).(Struct)[fieldIdx(st, "New")].(*Closure)
		if c == nil {
			return Iface{}
		}
		return in.callOn(g, c, nil)
	}))
	reg("(*sync.Pool).Put", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		if in.initing > 0 || a[1].(Iface).t == nil {
			return nil
		}
		if q := pool(in, a[0], g); !q.has {
			q.private, q.has = a[1], true
		} else {
			q.shared = append(q.shared, a[1])
		}
		return nil
	}))
	for _, n := range []string{"sync.runtime_registerPoolCleanup", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "sync.fatal", "runtime/debug.PrintStack",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault",
		"(*internal/godebug.Setting).IncNonDefault", "internal/msan.Read", "internal/asan.Read", "internal/byteorder.init"} {
		reg(n, noop)
	}
	reg("(*internal/godebug.Setting).Value", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return "" }))
	reg("runtime.GOMAXPROCS", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return uint64(4) }))
	reg("runtime.NumCPU", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return uint64(2) }))
	reg("runtime.NumGoroutine", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n := 0
		for _, x := range in.gors {
			if !x.done {
				n++
			}
		}
		return uint64(n)
	}))
	reg("internal/abi.NoEscape", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return a[0] }))
	reg("internal/abi.Escape", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return a[0] }))
}

func fieldIdx(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic("fieldIdx of " + t.String())
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic("no field " + name + " in " + t.String())
}

// ---------- time

const epochUnix = 1600000000

func (in *Interp) timeVal(t types.Type, ns int64) Value {
	sec := int64(epochUnix) + ns/1e9
	nsec := ns % 1e9
	const unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)
	const wallToInternal = int64((1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400)
	s := zero(t).(Struct)
	wsec := sec + unixToInternal - wallToInternal
	s[0] = uint64(1<<63) | uint64(wsec)<<30 | uint64(nsec)
	s[1] = uint64(ns + 1)
	return s
}

func timeIntrinsics(reg regFn) {
	reg("time.Now", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return in.timeVal(fn.Signature.Results().At(0).Type(), in.now)
	}))
	reg("time.runtimeIsBubbled", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return true }))
	reg("time.runtimeNano", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return uint64(in.now + 1) }))
	reg("time.runtimeNow", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return uint64(in.now + 1) }))
	reg("time.Sleep", func(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
		if g.aux == nil {
			fired := false
			in.addTimer(int64(in.concretize(a[0])), func() { fired = true })
			g.aux = &fired
			g.pred = func() bool { return fired }
			return nil, stBlock
		}
		g.aux, g.pred = nil, nil
		return nil, stOK
	})
	timerStruct := func(in *Interp, fn *ssa.Function) (types.Type, Struct) {
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		return pt, zero(pt).(Struct)
	}
	mkChan := func(in *Interp) *ChanV {
		in.chanSeq++
		return &ChanV{cap: 1, id: in.chanSeq, epoch: in.epoch()}
	}
	fireChan := func(in *Interp, c *ChanV, tt types.Type) func() {
		return func() {
			if len(c.buf) < c.cap {
				in.trySend(c, in.timeVal(tt, in.now))
			}
		}
	}
	tk := func(p *Value) string { return fmt.Sprintf("tm:%p", p) }
	newT := func(per bool) intrinsicFn {
		return pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			pt, s := timerStruct(in, fn)
			c := mkChan(in)
			s[0] = c
			p := new(Value)
			*p = s
			ct := pt.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Chan).Elem()
			d := int64(in.concretize(a[0]))
			if per && d <= 0 {
				in.throw(Iface{t: types.Typ[types.String], v: "non-positive interval for NewTicker"})
			}
			t := in.addTimer(d, fireChan(in, c, ct))
			if per {
				t.per = d
			}
			in.side[tk(p)] = t
			return p
		})
	}
	reg("time.NewTimer", newT(false))
	reg("time.NewTicker", newT(true))
	reg("time.After", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		c := mkChan(in)
		ct := fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
		in.addTimer(int64(in.concretize(a[0])), fireChan(in, c, ct))
		return c
	}))
	reg("time.Tick", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		c := mkChan(in)
		ct := fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
		d := int64(in.concretize(a[0]))
		in.addTimer(d, fireChan(in, c, ct)).per = d
		return c
	}))
	reg("time.AfterFunc", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		_, s := timerStruct(in, fn)
		p := new(Value)
		*p = s
		f := a[1]
		in.side[tk(p)] = in.addTimer(int64(in.concretize(a[0])), func() { in.spawnGor(g, f, nil) })
		return p
	}))
	stop := pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		t, _ := in.side[tk(in.ptr(a[0]))].(*timer)
		if t == nil {
			in.throw(Iface{t: types.Typ[types.String], v: "time: Stop called on uninitialized Timer"})
		}
		was := t.live
		t.live = false
		return was
	})
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		if t, _ := in.side[tk(in.ptr(a[0]))].(*timer); t != nil {
			t.live = false
		}
		return nil
	}))
	reg("(*time.Timer).Reset", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		t, _ := in.side[tk(in.ptr(a[0]))].(*timer)
		if t == nil {
			in.throw(Iface{t: types.Typ[types.String], v: "time: Reset called on uninitialized Timer"})
		}
		was := t.live
		t.live = false
		nt := in.addTimer(int64(in.concretize(a[1])), t.fire)
		in.side[tk(in.ptr(a[0]))] = nt
		return was
	}))
	reg("(*time.Ticker).Reset", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		t, _ := in.side[tk(in.ptr(a[0]))].(*timer)
		t.live = false
		d := int64(in.concretize(a[1]))
		nt := in.addTimer(d, t.fire)
		nt.per = d
		in.side[tk(in.ptr(a[0]))] = nt
		return nil
	}))
}

// ---------- strings and bytes

func (in *Interp) sliceBytes(v Value) []Value {
	switch x := v.(type) {
	case SliceV:
		if x.n != nil {
			in.unsupported("byte operation on symbolic-length slice")
		}
		return x.s
	}
	return strBytes(v)
}

func (in *Interp) indexByte(s []Value, c Value) Value {
	if ct, ok := c.(*Term); ok && len(s) <= 96 {
		conc := true
		for _, x := range s {
			if _, ok := x.(uint64); !ok {
				conc = false
				break
			}
		}
		if conc { // the position as one term, no branching
			r := in.ctx.BV(^uint64(0), 64)
			for i := len(s) - 1; i >= 0; i-- {
				r = in.ctx.Ite(in.ctx.Eq(ct, in.ctx.BV(s[i].(uint64), 8)), in.ctx.BV(uint64(i), 64), r)
			}
			return lower(r)
		}
	}
	for i := range s {
		if in.branch(in.byteEq(s[i], c)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func stringIntrinsics(reg regFn) {
	eq := pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return in.bytesEq(in.sliceBytes(a[0]), in.sliceBytes(a[1]))
	})
	reg("internal/bytealg.Equal", eq)
	reg("bytes.Equal", eq)
	cmp := pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		x, y := in.sliceBytes(a[0]), in.sliceBytes(a[1])
		if in.branch(in.bytesEq(x, y)) {
			return uint64(0)
		}
		if in.branch(in.bytesLess(x, y)) {
			return ^uint64(0)
		}
		return uint64(1)
	})
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "internal/bytealg.abigen_runtime_cmpstring"} {
		reg(n, cmp)
	}
	ib := pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return in.indexByte(in.sliceBytes(a[0]), a[1])
	})
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte"} {
		reg(n, ib)
	}
	lib := pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		s := in.sliceBytes(a[0])
		for i := len(s) - 1; i >= 0; i-- {
			if in.branch(in.byteEq(s[i], a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, lib)
	}
	cnt := pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n := uint64(0)
		for _, b := range in.sliceBytes(a[0]) {
			if in.branch(in.byteEq(b, a[1])) {
				n++
			}
		}
		return n
	})
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		reg(n, cnt)
	}
	idx := pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		s, sub := in.sliceBytes(a[0]), in.sliceBytes(a[1])
		for i := 0; i+len(sub) <= len(s); i++ {
			if in.branch(in.bytesEq(s[i:i+len(sub)], sub)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		reg(n, idx)
	}
	lidx := pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		s, sub := in.sliceBytes(a[0]), in.sliceBytes(a[1])
		for i := len(s) - len(sub); i >= 0; i-- {
			if in.branch(in.bytesEq(s[i:i+len(sub)], sub)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	reg("strings.LastIndex", lidx)
	reg("internal/bytealg.MakeNoZero", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n := int(in.concretize(a[0]))
		s := make([]Value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return SliceV{s: s}
	}))
	reg("(*strings.Builder).copyCheck", noop)
	reg("strings.Clone", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return a[0] }))
	reg("internal/stringslite.Clone", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return a[0] }))
	// case mapping: concrete fast path, ASCII per byte otherwise
	caseMap := func(lo, hi byte, d uint64, conc func(string) string) intrinsicFn {
		return pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			if s, ok := a[0].(string); ok {
				return conc(s)
			}
			b := strBytes(a[0])
			out := make([]Value, len(b))
			for i, x := range b {
				if in.branch(lower(in.ctx.Cmp(OUle, in.ctx.BV(0x80, 8), in.bv(x, 8)))) {
					return conc(in.str(a[0]))
				}
				t := in.bv(x, 8)
				c := in.ctx.And(in.ctx.Cmp(OUle, in.ctx.BV(uint64(lo), 8), t), in.ctx.Cmp(OUle, t, in.ctx.BV(uint64(hi), 8)))
				out[i] = lower(in.ctx.Ite(c, in.ctx.Bin(OAdd, t, in.ctx.BV(d&0xff, 8)), t))
			}
			return mkStr(out)
		})
	}
	reg("strings.ToLower", caseMap('A', 'Z', 32, strings.ToLower))
	reg("strings.ToUpper", caseMap('a', 'z', ^uint64(31), strings.ToUpper))
}

// ---------- misc: math, errors, sort, rand, os basics

func miscIntrinsics(reg regFn) {
	f1 := func(op Op, conc func(float64) float64) intrinsicFn {
		return pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			if x, ok := a[0].(float64); ok {
				return conc(x)
			}
			return lower(in.ctx.F(op, SFP, a[0].(*Term)))
		})
	}
	reg("math.Ceil", f1(OFRoundUp, math.Ceil))
	reg("math.Floor", f1(OFRoundDown, math.Floor))
	reg("math.Trunc", f1(OFRoundZero, math.Trunc))
	c1 := func(n string, f func(float64) float64) {
		reg("math."+n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			x, ok := a[0].(float64)
			if !ok {
				in.unsupported("math.%s of a symbolic value", n)
			}
			return f(x)
		}))
	}
	c1("Sqrt", math.Sqrt)
	c1("Abs", math.Abs)
	c1("Log2", math.Log2)
	c1("Log", math.Log)
	c1("Log10", math.Log10)
	c1("Exp", math.Exp)
	c1("Round", math.Round)
	reg("math.Pow", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return math.Pow(a[0].(float64), a[1].(float64))
	}))
	reg("crypto/internal/constanttime.boolToUint8", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		if b, ok := a[0].(bool); ok {
			if b {
				return uint64(1)
			}
			return uint64(0)
		}
		return lower(in.ctx.Ite(a[0].(*Term), in.ctx.BV(1, 8), in.ctx.BV(0, 8)))
	}))
	reg("math.Float64bits", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		x, ok := a[0].(float64)
		if !ok {
			in.unsupported("bits of a symbolic float")
		}
		return math.Float64bits(x)
	}))
	reg("math.Float64frombits", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return math.Float64frombits(in.concretize(a[0]))
	}))
	reg("math.Float32bits", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return uint64(math.Float32bits(float32(a[0].(float64))))
	}))
	reg("math.Float32frombits", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return float64(math.Float32frombits(uint32(in.concretize(a[0]))))
	}))
	swap := func(in *Interp, s SliceV, i, j int) {
		t := copyVal(s.s[i])
		in.storeTo(&s.s[i], copyVal(s.s[j]))
		in.storeTo(&s.s[j], t)
	}
	// sort.Slice: insertion sort natively for short slices (as the library does
	// for n <= 12), calling the real comparison.
	sortSlice := func(stable bool) intrinsicFn {
		return pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			s, ok := a[0].(Iface).v.(SliceV)
			if !ok || s.n != nil {
				in.unsupported("sort.Slice of %T", a[0].(Iface).v)
			}
			less := a[1].(*Closure)
			n := len(s.s)
			if n > 12 && !stable {
				in.fail("bound", "sort.Slice of more than 12 elements")
			}
			for i := 1; i < n; i++ {
				for j := i; j > 0; j-- {
					if !in.branch(in.callOn(g, less, []Value{uint64(j), uint64(j - 1)})) {
						break
					}
					swap(in, s, j, j-1)
				}
			}
			return nil
		})
	}
	reg("sort.Slice", sortSlice(false))
	reg("sort.SliceStable", sortSlice(true))
	reg("sort.SliceIsSorted", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		s := a[0].(Iface).v.(SliceV)
		for i := len(s.s) - 1; i > 0; i-- {
			if in.branch(in.callOn(g, a[1].(*Closure), []Value{uint64(i), uint64(i - 1)})) {
				return false
			}
		}
		return true
	}))
	sortStrings := pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		s := a[0].(SliceV)
		allc := true
		for _, x := range s.s {
			if _, ok := x.(string); !ok {
				allc = false
			}
		}
		if allc {
			r := make([]string, len(s.s))
			for i := range r {
				r[i] = s.s[i].(string)
			}
			sort.Strings(r)
			for i := range r {
				in.storeTo(&s.s[i], r[i])
			}
			return nil
		}
		for i := 1; i < len(s.s); i++ {
			for j := i; j > 0; j-- {
				if !in.branch(in.strLess(s.s[j], s.s[j-1])) {
					break
				}
				swap(in, s, j, j-1)
			}
		}
		return nil
	})
	reg("sort.Strings", sortStrings)
	reg("errors.Is", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return in.errorsIs(g, a[0].(Iface), a[1].(Iface), 0)
	}))
	reg("errors.As", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return in.errorsAs(g, a[0].(Iface), a[1].(Iface), 0)
	}))
	reg("os.Getpid", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return uint64(4242) }))
	reg("os.Getenv", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return "" }))
	reg("os.Exit", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.report("panic", "os.Exit", "")
		return nil
	}))
	rnd := func(w int) intrinsicFn {
		return pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return in.fresh("rand", w) })
	}
	for _, p := range []string{"math/rand.", "math/rand/v2."} {
		reg(p+"Int63", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			return lower(in.ctx.Bin(OLShr, in.fresh("rand", 64), in.ctx.BV(1, 64)))
		}))
		reg(p+"Uint64", rnd(64))
		reg(p+"Uint32", rnd(32))
		rn := pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			n := in.bv(a[0], 64)
			t := in.fresh("rand", 64)
			in.assume(lower(in.ctx.Cmp(OUlt, t, n)))
			return t
		})
		reg(p+"Intn", rn)
		reg(p+"Int63n", rn)
		reg(p+"Seed", noop)
	}
	reg("runtime/debug.Stack", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return SliceV{} }))
	reg("runtime.Caller", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return Tuple{uint64(0), "", uint64(0), false}
	}))
	reg("runtime.Callers", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return uint64(0) }))
	reg("math/bits.Mul64", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		x, ok1 := a[0].(uint64)
		y, ok2 := a[1].(uint64)
		if !ok1 || !ok2 {
			x, y = in.concretize(a[0]), in.concretize(a[1])
		}
		hi, lo := bits.Mul64(x, y)
		return Tuple{hi, lo}
	}))
}

func (in *Interp) errorsIs(g *Gor, err, target Iface, depth int) Value {
	if depth > 20 {
		return false
	}
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	if types.Identical(err.t, target.t) {
		switch err.v.(type) {
		case SliceV, *MapV, *Closure:
		default:
			if in.branch(in.eq(err, target)) {
				return true
			}
		}
	}
	if m := in.eng.lookupMethod(err.t, nil, "Is"); m != nil {
		if in.branch(in.callOn(g, &Closure{fn: m}, []Value{err.v, target})) {
			return true
		}
	}
	for _, u := range in.unwrap(g, err) {
		if in.errorsIs(g, u, target, depth+1) == true {
			return true
		}
	}
	return false
}

func (in *Interp) unwrap(g *Gor, err Iface) []Iface {
	m := in.eng.lookupMethod(err.t, nil, "Unwrap")
	if m == nil {
		return nil
	}
	r := in.callOn(g, &Closure{fn: m}, []Value{err.v})
	switch x := r.(type) {
	case Iface:
		if x.t != nil {
			return []Iface{x}
		}
	case SliceV:
		var out []Iface
		for _, e := range x.s {
			if i, ok := e.(Iface); ok && i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (in *Interp) errorsAs(g *Gor, err, target Iface, depth int) Value {
	if err.t == nil || depth > 20 {
		return false
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		in.throw(Iface{t: types.Typ[types.String], v: "errors: target must be a non-nil pointer"})
	}
	et := pt.Elem()
	if it, ok := et.Underlying().(*types.Interface); ok {
		if in.eng.implements(err.t, it) {
			in.storeTo(target.v.(*Value), err)
			return true
		}
	} else if types.Identical(err.t, et) {
		in.storeTo(target.v.(*Value), err.v)
		return true
	}
	if m := in.eng.lookupMethod(err.t, nil, "As"); m != nil {
		if in.branch(in.callOn(g, &Closure{fn: m}, []Value{err.v, target})) {
			return true
		}
	}
	for _, u := range in.unwrap(g, err) {
		if in.errorsAs(g, u, target, depth+1) == true {
			return true
		}
	}
	return false
}
