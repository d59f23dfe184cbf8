package main

// Symbolic interpreter over go/ssa. One Interp executes one path; the heap of
// package-level state belongs to the worker and is rolled back after each path.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"time"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type pathEnd struct {
	kind string // infeasible | unsupported | bound | violation | done
	msg  string
}

type goPanic struct{ v Value } // a Go panic crossing a host frame

type barrierPanic struct {
	f *frame
	v Value
}

type dec struct {
	parent *dec
	v      uint64
	n      int
	kind   byte // b: symbolic branch, c: choice
	tag    string
}

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

type FnInfo struct {
	slots map[ssa.Value]int
	n     int
}

type deferred struct {
	fn   *Closure
	bi   *ssa.Builtin
	args []Value
	inv  *ssa.CallCommon
}

type frame struct {
	fn        *ssa.Function
	fi        *FnInfo
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	ip        int
	defers    []deferred
	panicking bool
	pval      Value
	recovered bool
	running   bool // running defers (panic mode or RunDefers)
	dst       *ssa.Call
	barrier   bool
	result    Value
	isDefer   bool
	parent    *frame // frame whose defer we run
	free      []Value
}

type waitCase struct {
	ch  *ChanV
	dir types.ChanDir // SendOnly or RecvOnly
	val Value
	idx int
}

type Gor struct {
	id       int
	frames   []*frame
	done     bool
	waits    []waitCase
	pred     func() bool
	resolved *resolution
	name     string
	nested   int
	wakeTick int
	lastPos  string
	noAct    bool
	aux      *bool
	vc       vclock
}

type resolution struct {
	idx    int
	val    Value
	ok     bool
	closed bool // send on closed
}

type timer struct {
	id   int
	when int64
	fire func()
	live bool
	per  int64
}

type Interp struct {
	eng   *Engine
	w     *Worker
	ctx   *Ctx
	pc    []*Term
	model map[string]uint64
	memo  map[*Term]uint64

	prefix []uint64
	pos    int
	trace  *dec
	spawn  func(d *dec, model map[string]uint64)

	gors    []*Gor
	cur     *Gor
	undo    []undoRec
	initing int
	steps   int64
	pathFns map[*ssa.Function]bool

	preempt    int
	schedMode  int // 0 deterministic, 1 all choices at blocking points
	mapMode    int // 0 insertion order, 1 all orders
	timersAny  bool
	now        int64
	timers     []*timer
	timerSeq   int
	fireBudget int
	chanSeq    int

	mutexes map[*Value]*mutexState
	wgs     map[*Value]*int64
	side    map[string]any

	inputs    []inputRec
	notes     []string
	reached   map[string]bool
	asserts   int
	violation *Violation
	nsched    int
	hb        map[any]*vclock
	races     map[any]*raceState
	raceCells bool
	nmaporder int
	mapDevs   int // remaining deviations from insertion order, -1: any number
	mainDone  bool
	crashOK   bool
	curInstr  ssa.Instruction
	loopCnt   map[*ssa.BasicBlock]int
}

type inputRec struct {
	Name string
	Kind string
	Vals []Value
}

type mutexState struct {
	locked  bool
	readers int
	owner   int
	rtag    byte
}

type Violation struct {
	Harness string
	Label   string
	Kind    string        // assert | panic | deadlock
	After   time.Duration // of simulated time
	Detail  string
	Where   string
	Inputs  map[string][]uint64
	Notes   []string
	Sched   bool
	MapOrd  bool
	Trace   []uint64
	Goros   []string
	Model   map[string]uint64
	alts    []*Violation // of other paths
}

func (in *Interp) fail(kind, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if kind == "unsupported" && in.curInstr != nil {
		msg += " at " + in.where()
	}
	panic(pathEnd{kind, msg})
}

func (in *Interp) unsupported(format string, a ...any) { in.fail("unsupported", format, a...) }

func (in *Interp) where() string {
	if in.cur == nil || len(in.cur.frames) == 0 {
		return "?"
	}
	var parts []string
	for i := len(in.cur.frames) - 1; i >= 0 && len(parts) < 6; i-- {
		f := in.cur.frames[i]
		pos := ""
		if f.block != nil && f.ip > 0 && f.ip <= len(f.block.Instrs) {
			p := f.block.Instrs[f.ip-1].Pos()
			if !p.IsValid() {
				for k := f.ip - 1; k >= 0 && !p.IsValid(); k-- {
					p = f.block.Instrs[k].Pos()
				}
			}
			if p.IsValid() {
				ps := in.eng.prog.Fset.Position(p)
				pos = fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
			}
		}
		parts = append(parts, f.fn.String()+"@"+pos)
	}
	return strings.Join(parts, " < ")
}

func shortFile(f string) string {
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		if j := strings.LastIndexByte(f[:i], '/'); j >= 0 {
			return f[j+1:]
		}
	}
	return f
}

// ---------- decisions

func (in *Interp) record(v uint64, kind byte, tag string) {
	n := 1
	if in.trace != nil {
		n = in.trace.n + 1
	}
	in.trace = &dec{parent: in.trace, v: v, n: n, kind: kind, tag: tag}
}

func (in *Interp) evalB(t *Term) bool { return t.eval(in.model, in.memo) == 1 }

func (in *Interp) setModel(m map[string]uint64) {
	nm := make(map[string]uint64, len(in.model)+len(m))
	for k, v := range in.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	in.model = nm
	in.memo = map[*Term]uint64{}
}

func (in *Interp) addPC(t *Term) {
	if t.isConst() {
		if t.val == 0 {
			in.fail("infeasible", "false constraint")
		}
		return
	}
	in.pc = append(in.pc, t)
}

func (in *Interp) check(extra *Term) qres {
	if extra.isConst() {
		if extra.val == 0 {
			return qres{r: unsat}
		}
		return qres{r: sat, m: map[string]uint64{}}
	}
	return in.w.solver.query(in.ctx, sliceFor(in.pc, extra, len(in.ctx.vars)))
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (in *Interp) branch(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		if x.isConst() {
			return x.val == 1
		}
		return in.branchT(x)
	}
	panic(fmt.Sprintf("branch on %T", v))
}

func (in *Interp) branchT(c *Term) bool {
	if in.pos < len(in.prefix) {
		v := in.prefix[in.pos]
		d := v&1 == 1
		in.pos++
		in.record(v, 'b', "")
		if v&2 == 0 {
			if d {
				in.addPC(c)
			} else {
				in.addPC(in.ctx.Not(c))
			}
		}
		return d
	}
	s := in.evalB(c)
	mine, other := c, in.ctx.Not(c)
	if !s {
		mine, other = other, mine
	}
	// syntactic implication
	q := in.check(other)
	switch q.r {
	case sat:
		nm := make(map[string]uint64, len(in.model)+len(q.m))
		for k, v := range in.model {
			nm[k] = v
		}
		for k, v := range q.m {
			nm[k] = v
		}
		n := 1
		if in.trace != nil {
			n = in.trace.n + 1
		}
		in.spawn(&dec{parent: in.trace, v: b2u(!s), n: n, kind: 'b'}, nm)
	case unknown:
		in.eng.noteIncomplete("solver gave no answer for a branch at " + in.where())
	}
	if q.r != unsat {
		in.record(b2u(s), 'b', "")
		in.addPC(mine)
	} else {
		in.record(b2u(s)|2, 'b', "")
	}
	return s
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// choose is a nondeterministic choice among n alternatives.
func (in *Interp) choose(n int, tag string) int {
	if n <= 1 {
		return 0
	}
	if in.initing > 0 {
		return 0
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.record(d, 'c', tag)
		return int(d)
	}
	cnt := 1
	if in.trace != nil {
		cnt = in.trace.n + 1
	}
	for k := n - 1; k >= 1; k-- {
		in.spawn(&dec{parent: in.trace, v: uint64(k), n: cnt, kind: 'c', tag: tag}, in.model)
	}
	in.record(0, 'c', tag)
	return 0
}

// pickOrder chooses which of n map entries comes next; at most mapDevs times
// along a path (if set) it differs from insertion order.
func (in *Interp) pickOrder(n int) int {
	if in.mapDevs == -2 { // latest entry first
		in.nmaporder++
		return n - 1
	}
	if in.mapDevs == 0 {
		return 0
	}
	in.nmaporder++
	i := in.choose(n, "maporder")
	if i != 0 && in.mapDevs > 0 {
		in.mapDevs--
	}
	return i
}

// concretize fixes an integer term to a concrete value by forking over values.
func (in *Interp) concretize(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case bool:
		return b2u(x)
	case *Term:
		if x.isConst() {
			return x.val
		}
		for i := 0; ; i++ {
			if i > 4096 {
				in.fail("bound", "too many values in concretisation")
			}
			if in.pos < len(in.prefix) {
				c := in.prefix[in.pos]
				// two records per step: the value, then the branch
				in.pos++
				in.record(c, 'v', "")
				if in.branchEqConst(x, c) {
					return c
				}
				continue
			}
			c := x.eval(in.model, in.memo)
			in.record(c, 'v', "")
			if in.branchEqConst(x, c) {
				return c
			}
		}
	}
	panic(fmt.Sprintf("concretize %T", v))
}

func (in *Interp) branchEqConst(x *Term, c uint64) bool {
	var t *Term
	if x.w == SBool {
		t = x
		if c == 0 {
			t = in.ctx.Not(x)
		}
	} else {
		t = in.ctx.Eq(x, in.ctx.BV(c, x.w))
	}
	if t.isConst() {
		return t.val == 1
	}
	return in.branchT(t)
}

func (in *Interp) assume(v Value) {
	switch x := v.(type) {
	case bool:
		if !x {
			in.fail("infeasible", "assume(false)")
		}
	case *Term:
		if x.isConst() {
			if x.val == 0 {
				in.fail("infeasible", "assume(false)")
			}
			return
		}
		if in.evalB(x) {
			in.addPC(x)
			return
		}
		q := in.check(x)
		switch q.r {
		case sat:
			in.addPC(x)
			in.setModel(q.m)
		case unsat:
			in.fail("infeasible", "assumption unsatisfiable")
		default:
			in.eng.noteIncomplete("solver gave no answer for an assumption at " + in.where())
			in.fail("infeasible", "assumption unknown")
		}
	}
}

func (in *Interp) assert(v Value, label string) {
	in.asserts++
	switch x := v.(type) {
	case bool:
		if !x {
			in.report("assert", label, "")
		}
	case *Term:
		if x.isConst() {
			if x.val == 0 {
				in.report("assert", label, "")
			}
			return
		}
		if in.eng.known[label] {
			// a recorded finding: report it and go on with the cases where it holds
			if !in.branch(x) {
				in.report("assert", label, "")
			}
			return
		}
		if in.pos < len(in.prefix) {
			return // decided when the parent path ran here
		}
		if !in.evalB(x) {
			in.report("assert", label, "")
		}
		q := in.check(in.ctx.Not(x))
		switch q.r {
		case sat:
			in.setModel(q.m)
			in.report("assert", label, "")
		case unknown:
			in.eng.noteIncomplete("solver gave no answer for assertion " + label)
		}
	}
}

func (in *Interp) report(kind, label, detail string) {
	v := &Violation{Harness: in.eng.harness, Label: label, Kind: kind, Detail: detail, Where: in.where(),
		Inputs: map[string][]uint64{}, Sched: in.nsched > 0 || kind == "race", MapOrd: in.nmaporder > 0, After: time.Duration(in.now)}
	if v.Where == "?" {
		v.Where = detail
	}
	v.Inputs = in.inputValues()
	v.Model = in.model
	v.Notes = append(v.Notes, in.notes...)
	v.Trace = in.traceList()
	for _, g := range in.gors {
		if !g.done {
			save := in.cur
			in.cur = g
			v.Goros = append(v.Goros, fmt.Sprintf("g%d %s", g.id, in.where()))
			in.cur = save
		}
	}
	in.violation = v
	panic(pathEnd{"violation", label})
}

func (in *Interp) inputValues() map[string][]uint64 {
	m := map[string][]uint64{}
	for _, r := range in.inputs {
		vs := make([]uint64, len(r.Vals))
		for i, x := range r.Vals {
			vs[i] = in.valUnder(x)
		}
		m[r.Name] = vs
	}
	return m
}

func (in *Interp) traceList() []uint64 {
	n := 0
	if in.trace != nil {
		n = in.trace.n
	}
	r := make([]uint64, n)
	for d := in.trace; d != nil; d = d.parent {
		r[d.n-1] = d.v
	}
	return r
}

func (in *Interp) valUnder(x Value) uint64 {
	switch t := x.(type) {
	case uint64:
		return t
	case bool:
		return b2u(t)
	case *Term:
		return t.eval(in.model, in.memo)
	}
	return 0
}

// ---------- terms from values

func (in *Interp) bv(v Value, w int) *Term {
	switch x := v.(type) {
	case *Term:
		if x.w == SBool {
			panic("bv of bool")
		}
		if x.w != w {
			panic(fmt.Sprintf("bv width %d want %d", x.w, w))
		}
		return x
	case uint64:
		return in.ctx.BV(x, w)
	}
	panic(fmt.Sprintf("bv of %T", v))
}

func (in *Interp) bt(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return in.ctx.Bool(x)
	}
	panic(fmt.Sprintf("bt of %T", v))
}

func (in *Interp) fp(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case float64:
		return in.ctx.FP(x)
	}
	panic(fmt.Sprintf("fp of %T", v))
}

func lower(t *Term) Value {
	if t.op == OConst {
		switch t.w {
		case SBool:
			return t.val == 1
		case SFP:
			return math.Float64frombits(t.val)
		}
		return t.val
	}
	return t
}

func (in *Interp) not(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Term:
		return lower(in.ctx.Not(x))
	}
	panic("not")
}
func (in *Interp) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return lower(in.ctx.And(a.(*Term), b.(*Term)))
}

// ---------- memory

func (in *Interp) logStore(p *Value) {
	if in.initing == 0 {
		in.undo = append(in.undo, undoRec{p: p, old: *p})
	}
}

func (in *Interp) storeTo(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if dst, ok := (*p).(Struct); ok && len(dst) == len(x) {
			for i := range x {
				in.storeTo(&dst[i], x[i])
			}
			return
		}
	case Array:
		if dst, ok := (*p).(Array); ok && len(dst) == len(x) {
			for i := range x {
				in.storeTo(&dst[i], x[i])
			}
			return
		}
	}
	in.logStore(p)
	*p = copyVal(v)
}

func (in *Interp) nilDeref() {
	in.throw(in.runtimeError("invalid memory address or nil pointer dereference"))
}

func (in *Interp) store(addr, v Value) {
	switch p := addr.(type) {
	case *Value:
		if p == nil {
			in.nilDeref()
		}
		in.storeTo(p, v)
	case *SymPtr:
		for i := range p.elems {
			old := p.elems[i]
			c := in.ctx.Eq(p.idx, in.ctx.BV(uint64(i), 64))
			nv := in.ite(c, v, old)
			in.logStore(&p.elems[i])
			p.elems[i] = nv
		}
	default:
		in.unsupported("store through %T", addr)
	}
}

func (in *Interp) ite(c *Term, a, b Value) Value {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	w := 0
	if t, ok := a.(*Term); ok {
		w = t.w
	} else if t, ok := b.(*Term); ok {
		w = t.w
	} else {
		switch x := a.(type) {
		case uint64:
			if y, ok := b.(uint64); ok && x == y {
				return a
			}
			w = -1
		case bool:
			return lower(in.ctx.Ite(c, in.bt(a), in.bt(b)))
		default:
			in.unsupported("ite over %T", a)
		}
	}
	if w == -1 {
		in.unsupported("ite: unknown width")
	}
	switch w {
	case SBool:
		return lower(in.ctx.Ite(c, in.bt(a), in.bt(b)))
	case SFP:
		return lower(in.ctx.Ite(c, in.fp(a), in.fp(b)))
	}
	return lower(in.ctx.Ite(c, in.bv(a, w), in.bv(b, w)))
}

func (in *Interp) iteW(c *Term, a, b Value, w int) Value {
	if w == SBool {
		return lower(in.ctx.Ite(c, in.bt(a), in.bt(b)))
	}
	return lower(in.ctx.Ite(c, in.bv(a, w), in.bv(b, w)))
}

func (in *Interp) load(addr Value, t types.Type) Value {
	switch p := addr.(type) {
	case *Value:
		if p == nil {
			in.nilDeref()
		}
		v := *p
		switch x := v.(type) {
		case Struct:
			if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() != len(x) {
				in.unsupported("load of %v through a pointer to another struct", t)
			}
			return copyVal(v)
		case Array:
			return copyVal(v)
		case SliceV:
			if isString(t) {
				return mkStr(x.s)
			}
		case string:
			if _, ok := t.Underlying().(*types.Slice); ok {
				return bytesToSlice([]byte(x))
			}
		case *SymStr:
			if _, ok := t.Underlying().(*types.Slice); ok {
				return SliceV{s: append([]Value(nil), x.b...)}
			}
		}
		return v
	case *SymPtr:
		w, _ := intWidth(t)
		if w == 0 && isBoolT(t) {
			w = SBool
		} else if w == 0 {
			in.unsupported("symbolic index of %v", t)
		}
		return in.symIndex(p.elems, p.idx, w)
	}
	in.unsupported("load through %T", addr)
	return nil
}

// symIndex builds a balanced ite tree over the elements (idx is in range).
func (in *Interp) symIndex(el []Value, idx *Term, w int) Value {
	var rec func(lo, hi int) Value
	rec = func(lo, hi int) Value {
		if hi-lo == 1 {
			return el[lo]
		}
		same := true
		for i := lo + 1; i < hi; i++ {
			if el[i] != el[lo] {
				same = false
				break
			}
		}
		if same {
			return el[lo]
		}
		mid := (lo + hi) / 2
		c := in.ctx.Cmp(OUlt, idx, in.ctx.BV(uint64(mid), idx.w))
		if c.isConst() {
			if c.val == 1 {
				return rec(lo, mid)
			}
			return rec(mid, hi)
		}
		return in.iteW(c, rec(lo, mid), rec(mid, hi), w)
	}
	return rec(0, len(el))
}

// ---------- panics

func (in *Interp) runtimeError(msg string) Value {
	return Iface{t: in.eng.rtErrType, v: msg}
}

// throw raises a Go panic in the current goroutine (never returns).
func (in *Interp) throw(v Value) { panic(goPanic{v}) }

func (in *Interp) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("%v", v)
	}
	switch x := i.v.(type) {
	case string:
		if i.t == in.eng.rtErrType {
			return "runtime error: " + x
		}
		return x
	}
	if i.t == nil {
		return "nil"
	}
	// errors: try Error()
	defer func() { recover() }()
	s := in.fmtValue(in.cur, 'v', "", i)
	return fmt.Sprintf("%v(%s)", i.t, in.showStr(s))
}

func (in *Interp) showStr(v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		r := make([]byte, len(x.b))
		for i := range x.b {
			r[i] = byte(in.valUnder(x.b[i]))
		}
		return string(r)
	}
	return fmt.Sprintf("%v", v)
}

// ---------- constants and operands

func (in *Interp) constVal(c *ssa.Const) Value {
	if v, ok := in.w.consts[c]; ok {
		return copyVal(v)
	}
	v := in.constVal0(c)
	in.w.consts[c] = v
	return copyVal(v)
}

func (in *Interp) constVal0(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case u.Info()&types.IsInteger != 0:
			w, _ := intWidth(t)
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return uint64(i) & mask(w)
			}
			ui, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return ui & mask(w)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if u.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UnsafePointer:
			return UPtr{v: (*Value)(nil)}
		}
	}
	in.unsupported("constant %v", c)
	return nil
}

func (in *Interp) get(f *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return in.global(x)
	case *ssa.Function:
		return in.fnClosure(x)
	case *ssa.Builtin:
		return x
	}
	i, ok := f.fi.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %v in %v", v, f.fn))
	}
	return f.regs[i]
}

func (in *Interp) fnClosure(f *ssa.Function) *Closure {
	if c, ok := in.w.fnClos[f]; ok {
		return c
	}
	c := &Closure{fn: f}
	in.w.fnClos[f] = c
	return c
}

func (in *Interp) set(f *frame, v ssa.Value, val Value) {
	f.regs[f.fi.slots[v]] = val
}

func (in *Interp) global(g *ssa.Global) *Value {
	in.ensureInit(g.Pkg)
	p, ok := in.w.globals[g]
	if !ok {
		p = new(Value)
		*p = zero(g.Type().(*types.Pointer).Elem())
		in.w.globals[g] = p
		if g.Pkg != nil && in.eng.skipInit(g.Pkg.Pkg.Path()) && !inNoop(g.Pkg.Pkg.Path()) && in.eng.initialised(g) {
			if v, ok := skippedGlobals[g.Pkg.Pkg.Path()+"."+g.Name()]; ok {
				r := SliceV{}
				for _, b := range v {
					r.s = append(r.s, uint64(b))
				}
				*p = r
			} else if !strings.HasPrefix(g.Name(), "Err") {
				delete(in.w.globals, g)
				in.unsupported("variable %s.%s of a package whose init is not run", g.Pkg.Pkg.Path(), g.Name())
			}
		}
		if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && strings.HasPrefix(g.Name(), "Err") {
			// the init of os is not run
			if q := in.eng.pkgs["internal/oserror"]; q != nil {
				if o, ok := q.Members[g.Name()].(*ssa.Global); ok {
					*p = *in.global(o)
				}
			}
		}
	}
	return p
}

func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.w.inited[p] {
		return
	}
	in.w.inited[p] = true
	if in.eng.skipInit(p.Pkg.Path()) {
		return
	}
	in.eng.build(p)
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	in.initing++
	initDone := false
	defer func() {
		if !initDone {
			delete(in.w.inited, p) // not left half initialised for the next path
		}
	}()
	savePC, saveCur := in.pc, in.cur
	saveMap, savePre := in.mapMode, in.preempt
	in.mapMode, in.preempt = 0, 0
	g := &Gor{id: -1, name: "init " + p.Pkg.Path()}
	in.cur = g
	func() {
		defer func() {
			if r := recover(); r != nil {
				if gp, ok := r.(goPanic); ok {
					in.unsupported("panic in init of %s: %s", p.Pkg.Path(), in.panicText(gp.v))
				}
				panic(r)
			}
		}()
		in.callFrame(g, &Closure{fn: f}, nil)
	}()
	in.cur = saveCur
	in.pc = savePC
	in.mapMode, in.preempt = saveMap, savePre
	in.initing--
	initDone = true
}

// ---------- calls

// callOn runs fn to completion on goroutine g (must not block).
func (in *Interp) callOn(g *Gor, c *Closure, args []Value) Value {
	if c == nil {
		in.nilDeref()
	}
	if c.native != nil {
		return c.native(in, g, args)
	}
	if v, ok := in.tryIntrinsic(g, c.fn, args, nil); ok {
		return v
	}
	return in.callFrame(g, c, args)
}

func (in *Interp) callFrame(g *Gor, c *Closure, args []Value) Value {
	f := in.newFrame(c.fn, args, c.env)
	f.barrier = true
	g.frames = append(g.frames, f)
	depth := len(g.frames)
	g.nested++
	saveCur := in.cur
	in.cur = g
	defer func() {
		g.nested--
		in.cur = saveCur
		if r := recover(); r != nil {
			if bp, ok := r.(barrierPanic); ok && bp.f == f {
				panic(goPanic{bp.v})
			}
			panic(r)
		}
	}()
	for len(g.frames) >= depth {
		st := in.step(g)
		if st == stBlock {
			in.unsupported("blocking operation inside a native callback (%s)", c.fn)
		}
	}
	return f.result
}

func (in *Interp) callMethod(g *Gor, recv Iface, name string, args ...Value) Value {
	m := in.eng.lookupMethod(recv.t, nil, name)
	if m == nil {
		in.unsupported("no method %s on %v", name, recv.t)
	}
	return in.callOn(g, &Closure{fn: m}, append([]Value{recv.v}, args...))
}

func (in *Interp) newFrame(fn *ssa.Function, args []Value, env []Value) *frame {
	in.eng.buildFn(fn)
	if len(fn.Blocks) == 0 {
		in.unsupported("call of function without body: %s", fn.String())
	}
	in.pathFns[fn] = true
	fi := in.w.fnInfo(fn)
	f := &frame{fn: fn, fi: fi, regs: make([]Value, fi.n)}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arity %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		f.regs[fi.slots[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[fi.slots[p]] = env[i]
	}
	f.block = fn.Blocks[0]
	return f
}

func (w *Worker) fnInfo(fn *ssa.Function) *FnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := &FnInfo{slots: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.slots[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if fn.Recover != nil {
		for _, i := range fn.Recover.Instrs {
			if v, ok := i.(ssa.Value); ok {
				if _, ok := fi.slots[v]; !ok {
					add(v)
				}
			}
		}
	}
	w.fns[fn] = fi
	return fi
}

type status int

const (
	stOK status = iota
	stBlock
	stYield
	stDone
	stInterpret // a model does not apply: run the real code
)

// resolveCall evaluates the callee and arguments of a call.
func (in *Interp) resolveCall(f *frame, c *ssa.CallCommon) (fn Value, args []Value) {
	if c.IsInvoke() {
		recv := in.get(f, c.Value)
		i, ok := recv.(Iface)
		if !ok {
			in.unsupported("invoke on %T", recv)
		}
		if i.t == nil {
			in.nilDeref()
		}
		if o, ok := i.v.(*Opaque); ok {
			fn = in.opaqueMethod(o, i, c.Method)
		} else {
			m := in.eng.lookupMethod(i.t, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				in.unsupported("method %s not found on %v", c.Method.Name(), i.t)
			}
			fn = in.fnClosure(m)
		}
		args = make([]Value, 0, len(c.Args)+1)
		args = append(args, i.v)
	} else {
		fn = in.get(f, c.Value)
		args = make([]Value, 0, len(c.Args))
	}
	for _, a := range c.Args {
		args = append(args, in.get(f, a))
	}
	return
}

// finish delivers a panic to g's top frame: begin running its defers.
func (in *Interp) startPanic(g *Gor, v Value) {
	for {
		f := g.frames[len(g.frames)-1]
		f.panicking = true
		f.recovered = false
		f.pval = v
		f.running = true
		return
	}
}

// stepDefers runs one deferred call of f or ends the defer phase.
func (in *Interp) stepDefers(g *Gor, f *frame) status {
	if f.panicking && f.recovered {
		f.panicking = false
		// remaining defers still run, then return via Recover block
		f.recovered = true
	}
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		if d.bi != nil {
			in.builtin(g, f, d.bi, d.args, nil)
			return stOK
		}
		if d.fn == nil {
			in.nilDeref()
		}
		st := in.invoke(g, f, d.fn, d.args, nil, true)
		if st == stBlock || st == stYield {
			f.defers = append(f.defers, d)
		}
		return st
	}
	f.running = false
	if f.panicking {
		v := f.pval
		g.frames = g.frames[:len(g.frames)-1]
		if f.barrier {
			panic(barrierPanic{f, v})
		}
		if len(g.frames) == 0 {
			in.crash(g, v)
			return stDone
		}
		in.startPanic(g, v)
		return stOK
	}
	if f.recovered {
		f.recovered = false
		if f.fn.Recover != nil {
			f.prev = nil
			f.block = f.fn.Recover
			f.ip = 0
			return stOK
		}
		return in.doReturn(g, f, zeroResults(f.fn))
	}
	return stOK // RunDefers complete: continue after it
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (in *Interp) crash(g *Gor, v Value) {
	in.report("panic", "panic: "+in.panicText(v), g.lastPos)
}

func (in *Interp) doReturn(g *Gor, f *frame, res Value) status {
	g.frames = g.frames[:len(g.frames)-1]
	f.result = res
	if f.isDefer || f.barrier || len(g.frames) == 0 {
		if len(g.frames) == 0 && !f.barrier {
			g.done = true
			return stDone
		}
		return stOK
	}
	caller := g.frames[len(g.frames)-1]
	if f.dst != nil {
		in.set(caller, f.dst, res)
	}
	return stOK
}

// invoke calls a closure from frame f; result goes to dst (may be nil).
func (in *Interp) invoke(g *Gor, f *frame, c *Closure, args []Value, dst *ssa.Call, isDefer bool) status {
	if c == nil {
		in.nilDeref()
	}
	if c.native != nil {
		v := c.native(in, g, args)
		if dst != nil {
			in.set(f, dst, v)
		}
		return stOK
	}
	if m := in.eng.intrinsic(c.fn); m != nil {
		in.pathFns[c.fn] = false
		v, st := m(in, g, args, c.fn)
		if st == stBlock || st == stYield {
			return st
		}
		if st != stInterpret {
			if dst != nil {
				in.set(f, dst, v)
			}
			return st
		}
	}
	nf := in.newFrame(c.fn, args, c.env)
	nf.dst = dst
	nf.isDefer = isDefer
	if isDefer {
		nf.parent = f
	}
	if len(g.frames) > 2000 {
		in.fail("bound", "call depth")
	}
	g.frames = append(g.frames, nf)
	return stOK
}

func (in *Interp) tryIntrinsic(g *Gor, fn *ssa.Function, args []Value, dst *ssa.Call) (Value, bool) {
	if m := in.eng.intrinsic(fn); m != nil {
		v, st := m(in, g, args, fn)
		if st == stBlock {
			in.unsupported("blocking intrinsic %s in native callback", fn)
		}
		if st == stInterpret {
			return nil, false
		}
		return v, true
	}
	return nil, false
}

// step executes one instruction of g.
func (in *Interp) step(g *Gor) (st status) {
	f := g.frames[len(g.frames)-1]
	in.steps++
	if in.steps > in.eng.maxSteps && in.initing == 0 {
		in.fail("bound", "step limit (%d)", in.eng.maxSteps)
	}
	ipSave := f.ip
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(goPanic)
			if !ok {
				panic(r)
			}
			g.lastPos = in.where()
			// frames above f (nested barriers) were popped by their own unwinding
			for len(g.frames) > 0 && g.frames[len(g.frames)-1] != f {
				g.frames = g.frames[:len(g.frames)-1]
			}
			_ = ipSave
			in.startPanic(g, gp.v)
			st = stOK
		}
	}()
	if f.running {
		return in.stepDefers(g, f)
	}
	if f.ip >= len(f.block.Instrs) {
		panic("fell off block in " + f.fn.String())
	}
	ins := f.block.Instrs[f.ip]
	f.ip++
	in.curInstr = ins
	return in.exec(g, f, ins)
}

func (in *Interp) jump(f *frame, to *ssa.BasicBlock) {
	f.prev = f.block
	f.block = to
	f.ip = 0
	// phis in parallel
	n := 0
	for n < len(to.Instrs) {
		if _, ok := to.Instrs[n].(*ssa.Phi); !ok {
			break
		}
		n++
	}
	if n == 0 {
		return
	}
	pi := -1
	for i, p := range to.Preds {
		if p == f.prev {
			pi = i
			break
		}
	}
	vals := make([]Value, n)
	for i := 0; i < n; i++ {
		vals[i] = in.get(f, to.Instrs[i].(*ssa.Phi).Edges[pi])
	}
	for i := 0; i < n; i++ {
		in.set(f, to.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.ip = n
}

func (in *Interp) exec(g *Gor, f *frame, ins ssa.Instruction) status {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(x.Type().Underlying().(*types.Pointer).Elem())
		in.set(f, x, p)
	case *ssa.UnOp:
		return in.unop(g, f, x)
	case *ssa.BinOp:
		in.set(f, x, in.binop(x.Op, x.X.Type(), x.Y.Type(), in.get(f, x.X), in.get(f, x.Y)))
	case *ssa.Call:
		fn, args := in.resolveCall(f, &x.Call)
		switch c := fn.(type) {
		case *ssa.Builtin:
			v := in.builtin(g, f, c, args, &x.Call)
			in.set(f, x, v)
		case *Closure:
			st := in.invoke(g, f, c, args, x, false)
			if st == stBlock || st == stYield {
				f.ip--
			}
			return st
		default:
			in.unsupported("call of %T", fn)
		}
	case *ssa.Store:
		if in.raceCells {
			in.accessedCell(in.get(f, x.Addr), g, f.fn, true)
		}
		in.store(in.get(f, x.Addr), in.get(f, x.Val))
	case *ssa.If:
		if in.branch(in.get(f, x.Cond)) {
			in.jump(f, f.block.Succs[0])
		} else {
			in.jump(f, f.block.Succs[1])
		}
	case *ssa.Jump:
		in.jump(f, f.block.Succs[0])
	case *ssa.Phi:
		panic("phi reached")
	case *ssa.Return:
		var res Value
		switch len(x.Results) {
		case 0:
		case 1:
			res = in.get(f, x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = in.get(f, r)
			}
			res = t
		}
		return in.doReturn(g, f, res)
	case *ssa.RunDefers:
		f.running = true
	case *ssa.Panic:
		in.throw(in.get(f, x.X))
	case *ssa.Go:
		fn, args := in.resolveCall(f, &x.Call)
		in.spawnGor(g, fn, args)
	case *ssa.Defer:
		fn, args := in.resolveCall(f, &x.Call)
		target := f
		if x.DeferStack != nil {
			in.unsupported("defer stack")
		}
		switch c := fn.(type) {
		case *ssa.Builtin:
			target.defers = append(target.defers, deferred{bi: c, args: args})
		case *Closure:
			target.defers = append(target.defers, deferred{fn: c, args: args})
		}
	case *ssa.MakeInterface:
		in.set(f, x, Iface{t: x.X.Type(), v: in.get(f, x.X)})
	case *ssa.ChangeInterface:
		in.set(f, x, in.get(f, x.X))
	case *ssa.ChangeType:
		in.set(f, x, in.get(f, x.X))
	case *ssa.Convert:
		in.set(f, x, in.convert(x.Type(), x.X.Type(), in.get(f, x.X)))
	case *ssa.MultiConvert:
		in.set(f, x, in.convert(x.Type(), x.X.Type(), in.get(f, x.X)))
	case *ssa.SliceToArrayPointer:
		s := in.get(f, x.X).(SliceV)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.s) < n {
			in.throw(in.runtimeError("cannot convert slice to array pointer"))
		}
		if n == 0 && s.s == nil {
			in.set(f, x, (*Value)(nil))
			break
		}
		p := new(Value)
		*p = Array(s.s[:n:n])
		in.set(f, x, p)
	case *ssa.TypeAssert:
		in.set(f, x, in.typeAssert(x, in.get(f, x.X)))
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = in.get(f, b)
		}
		in.set(f, x, &Closure{fn: x.Fn.(*ssa.Function), env: env})
	case *ssa.FieldAddr:
		p, ok := in.get(f, x.X).(*Value)
		if !ok {
			in.unsupported("field address through %T", in.get(f, x.X))
		}
		if p == nil {
			in.nilDeref()
		}
		s, ok := (*p).(Struct)
		if !ok || x.Field >= len(s) {
			in.unsupported("field address of %T (%v)", *p, x.X.Type())
		}
		in.set(f, x, &s[x.Field])
	case *ssa.Field:
		s, ok := in.get(f, x.X).(Struct)
		if !ok {
			in.unsupported("field of %T", in.get(f, x.X))
		}
		in.set(f, x, s[x.Field])
	case *ssa.IndexAddr:
		in.set(f, x, in.indexAddr(in.get(f, x.X), in.get(f, x.Index), x.Index.Type(), x.X.Type()))
	case *ssa.Index:
		in.set(f, x, in.index(in.get(f, x.X), in.get(f, x.Index), x.Index.Type(), x.Type()))
	case *ssa.Lookup:
		if m, ok := in.get(f, x.X).(*MapV); ok && m != nil {
			in.accessed(m, g, f.fn, false, "map access")
		}
		in.set(f, x, in.lookup(x, in.get(f, x.X), in.get(f, x.Index)))
	case *ssa.Slice:
		in.set(f, x, in.slice(f, x))
	case *ssa.MakeSlice:
		in.set(f, x, in.makeSlice(x.Type(), in.convert(types.Typ[types.Int], x.Len.Type(), in.get(f, x.Len)), in.convert(types.Typ[types.Int], x.Cap.Type(), in.get(f, x.Cap))))
	case *ssa.MakeMap:
		in.set(f, x, in.newMap())
	case *ssa.MakeChan:
		n := int(int64(in.concretize(in.get(f, x.Size))))
		if n < 0 {
			in.throw(in.runtimeError("makechan: size out of range"))
		}
		in.chanSeq++
		in.set(f, x, &ChanV{cap: n, id: in.chanSeq, epoch: in.epoch()})
	case *ssa.MapUpdate:
		m := in.get(f, x.Map).(*MapV)
		if m == nil {
			in.throw(in.runtimeError("assignment to entry in nil map"))
		}
		in.accessed(m, g, f.fn, true, "map access")
		in.mapSet(m, in.get(f, x.Key), copyVal(in.get(f, x.Value)))
	case *ssa.Range:
		in.set(f, x, in.newRange(in.get(f, x.X)))
	case *ssa.Next:
		if it, ok := in.get(f, x.Iter).(*rangeIter); ok && it.m != nil {
			in.accessed(it.m, g, f.fn, false, "map access")
		}
		in.set(f, x, in.next(f, x))
	case *ssa.Extract:
		in.set(f, x, in.get(f, x.Tuple).(Tuple)[x.Index])
	case *ssa.Send:
		return in.chanOp(g, f, x)
	case *ssa.Select:
		return in.selectOp(g, f, x)
	default:
		in.unsupported("instruction %T", ins)
	}
	return stOK
}

func (in *Interp) epoch() int {
	if in.initing > 0 {
		return 0
	}
	return in.w.epoch
}

func (in *Interp) unop(g *Gor, f *frame, x *ssa.UnOp) status {
	if x.Op == token.ARROW {
		return in.chanOp(g, f, x)
	}
	v := in.get(f, x.X)
	switch x.Op {
	case token.MUL:
		if in.raceCells {
			in.accessedCell(v, g, f.fn, false)
		}
		in.set(f, x, in.load(v, x.Type()))
	case token.NOT:
		in.set(f, x, in.not(v))
	case token.SUB:
		w, _ := intWidth(x.Type())
		switch n := v.(type) {
		case uint64:
			in.set(f, x, -n&mask(w))
		case float64:
			in.set(f, x, -n)
		case *Term:
			if n.w == SFP {
				in.set(f, x, lower(in.ctx.F(OFNeg, SFP, n)))
			} else {
				in.set(f, x, lower(in.ctx.Neg(n)))
			}
		default:
			in.unsupported("neg %T", v)
		}
	case token.XOR:
		w, _ := intWidth(x.Type())
		switch n := v.(type) {
		case uint64:
			in.set(f, x, ^n&mask(w))
		case *Term:
			in.set(f, x, lower(in.ctx.BNot(n)))
		}
	default:
		in.unsupported("unop %v", x.Op)
	}
	return stOK
}

func (in *Interp) binop(op token.Token, tx, ty types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return in.eq(a, b)
	case token.NEQ:
		return in.not(in.eq(a, b))
	}
	if w, signed := intWidth(tx); w > 0 {
		return in.intOp(op, w, signed, ty, a, b)
	}
	if isString(tx) {
		switch op {
		case token.ADD:
			return concatStr(a, b)
		case token.LSS:
			return in.strLess(a, b)
		case token.GTR:
			return in.strLess(b, a)
		case token.LEQ:
			return in.not(in.strLess(b, a))
		case token.GEQ:
			return in.not(in.strLess(a, b))
		}
	}
	if isFloat(tx) {
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		f32 := basicOf(tx).Kind() == types.Float32
		rnd := func(v float64) float64 {
			if f32 {
				return float64(float32(v))
			}
			return v
		}
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return rnd(x + y)
			case token.SUB:
				return rnd(x - y)
			case token.MUL:
				return rnd(x * y)
			case token.QUO:
				return rnd(x / y)
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
		}
		if f32 {
			in.unsupported("symbolic float32")
		}
		p, q := in.fp(a), in.fp(b)
		switch op {
		case token.ADD:
			return lower(in.ctx.F(OFAdd, SFP, p, q))
		case token.SUB:
			return lower(in.ctx.F(OFSub, SFP, p, q))
		case token.MUL:
			return lower(in.ctx.F(OFMul, SFP, p, q))
		case token.QUO:
			return lower(in.ctx.F(OFDiv, SFP, p, q))
		case token.LSS:
			return lower(in.ctx.F(OFLt, SBool, p, q))
		case token.LEQ:
			return lower(in.ctx.F(OFLe, SBool, p, q))
		case token.GTR:
			return lower(in.ctx.F(OFLt, SBool, q, p))
		case token.GEQ:
			return lower(in.ctx.F(OFLe, SBool, q, p))
		}
	}
	if isBoolT(tx) {
		switch op {
		case token.AND, token.LAND:
			return in.and(a, b)
		case token.OR, token.LOR:
			return in.not(in.and(in.not(a), in.not(b)))
		}
	}
	in.unsupported("binop %v on %v", op, tx)
	return nil
}

func (in *Interp) intOp(op token.Token, w int, signed bool, ty types.Type, a, b Value) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	m := mask(w)
	switch op {
	case token.SHL, token.SHR:
		wy, sy := intWidth(ty)
		if sy {
			if ok2 {
				if sext(y, wy) < 0 {
					in.throw(in.runtimeError("negative shift amount"))
				}
			} else if in.branch(lower(in.ctx.Cmp(OSlt, in.bv(b, wy), in.ctx.BV(0, wy)))) {
				in.throw(in.runtimeError("negative shift amount"))
			}
		}
		sop := OShl
		if op == token.SHR {
			sop = OLShr
			if signed {
				sop = OAShr
			}
		}
		if ok1 && ok2 {
			v, _ := foldBin(sop, x, y, w)
			return v
		}
		if ok2 {
			if y >= uint64(w) {
				y = uint64(w)
				if sop == OAShr {
					y = uint64(w - 1)
				} else {
					return uint64(0)
				}
			}
			return lower(in.ctx.Bin(sop, in.bv(a, w), in.ctx.BV(y, w)))
		}
		bt := in.bv(b, wy)
		var cnt *Term
		if wy > w {
			big := in.ctx.Cmp(OUle, in.ctx.BV(uint64(w), wy), bt)
			cnt = in.ctx.Ite(big, in.ctx.BV(uint64(w), w), in.ctx.Extract(bt, w-1, 0))
		} else {
			cnt = in.ctx.ZExt(bt, w)
		}
		return lower(in.ctx.Bin(sop, in.bv(a, w), cnt))
	case token.QUO, token.REM:
		if ok2 {
			if y == 0 {
				in.throw(in.runtimeError("integer divide by zero"))
			}
		} else if in.branch(lower(in.ctx.Eq(in.bv(b, w), in.ctx.BV(0, w)))) {
			in.throw(in.runtimeError("integer divide by zero"))
		}
	}
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return (x + y) & m
		case token.SUB:
			return (x - y) & m
		case token.MUL:
			return (x * y) & m
		case token.QUO:
			o := OUDiv
			if signed {
				o = OSDiv
			}
			v, _ := foldBin(o, x, y, w)
			return v
		case token.REM:
			o := OURem
			if signed {
				o = OSRem
			}
			v, _ := foldBin(o, x, y, w)
			return v
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return x ^ y
		case token.AND_NOT:
			return x &^ y
		}
		var lt, le bool
		if signed {
			lt, le = sext(x, w) < sext(y, w), sext(x, w) <= sext(y, w)
		} else {
			lt, le = x < y, x <= y
		}
		switch op {
		case token.LSS:
			return lt
		case token.LEQ:
			return le
		case token.GTR:
			return !le
		case token.GEQ:
			return !lt
		}
	}
	p, q := in.bv(a, w), in.bv(b, w)
	c := in.ctx
	switch op {
	case token.ADD:
		return lower(c.Bin(OAdd, p, q))
	case token.SUB:
		return lower(c.Bin(OSub, p, q))
	case token.MUL:
		return lower(c.Bin(OMul, p, q))
	case token.QUO:
		if signed {
			return lower(c.Bin(OSDiv, p, q))
		}
		return lower(c.Bin(OUDiv, p, q))
	case token.REM:
		if signed {
			return lower(c.Bin(OSRem, p, q))
		}
		return lower(c.Bin(OURem, p, q))
	case token.AND:
		return lower(c.Bin(OBAnd, p, q))
	case token.OR:
		return lower(c.Bin(OBOr, p, q))
	case token.XOR:
		return lower(c.Bin(OBXor, p, q))
	case token.AND_NOT:
		return lower(c.Bin(OBAnd, p, c.BNot(q)))
	}
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.LSS:
		return lower(c.Cmp(lt, p, q))
	case token.LEQ:
		return lower(c.Cmp(le, p, q))
	case token.GTR:
		return lower(c.Cmp(lt, q, p))
	case token.GEQ:
		return lower(c.Cmp(le, q, p))
	}
	in.unsupported("int op %v", op)
	return nil
}

func (in *Interp) byteEq(a, b Value) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y
	}
	return lower(in.ctx.Eq(in.bv(a, 8), in.bv(b, 8)))
}

func (in *Interp) bytesEq(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	// concrete mismatch first
	for i := range a {
		if x, ok := a[i].(uint64); ok {
			if y, ok := b[i].(uint64); ok && x != y {
				return false
			}
		}
	}
	var r Value = true
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		r = in.and(r, in.byteEq(a[i], b[i]))
		if r == false {
			return false
		}
	}
	return r
}

func (in *Interp) strLess(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	return in.bytesLess(strBytes(a), strBytes(b))
}

func (in *Interp) bytesLess(p, q []Value) Value {
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	r := in.ctx.Bool(len(p) < len(q))
	// trim common concrete prefix
	start := 0
	for start < n {
		if p[start] == q[start] {
			start++
			continue
		}
		x, ok1 := p[start].(uint64)
		y, ok2 := q[start].(uint64)
		if ok1 && ok2 {
			return x < y
		}
		break
	}
	for i := n - 1; i >= start; i-- {
		pi, qi := in.bv(p[i], 8), in.bv(q[i], 8)
		r = in.ctx.Ite(in.ctx.Eq(pi, qi), r, in.ctx.Cmp(OUlt, pi, qi))
	}
	return lower(r)
}

func (in *Interp) eq(a, b Value) Value {
	switch x := a.(type) {
	case bool, *Term:
		if ta, ok := a.(*Term); ok {
			if ta.w == SFP {
				return lower(in.ctx.F(OFEq, SBool, ta, in.fp(b)))
			}
			if ta.w == SBool {
				return lower(in.ctx.Eq(ta, in.bt(b)))
			}
			return lower(in.ctx.Eq(ta, in.bv(b, ta.w)))
		}
		if tb, ok := b.(*Term); ok {
			return lower(in.ctx.Eq(in.bt(a), tb))
		}
		return a == b
	case uint64:
		if tb, ok := b.(*Term); ok {
			return lower(in.ctx.Eq(in.ctx.BV(x, tb.w), tb))
		}
		return x == b.(uint64)
	case float64:
		if tb, ok := b.(*Term); ok {
			return lower(in.ctx.F(OFEq, SBool, in.ctx.FP(x), tb))
		}
		return x == b.(float64)
	case string:
		if y, ok := b.(string); ok {
			return x == y
		}
		return in.bytesEq(strBytes(a), strBytes(b))
	case *SymStr:
		return in.bytesEq(x.b, strBytes(b))
	case *Value:
		if y, ok := b.(*Value); ok {
			return x == y
		}
		if u, ok := b.(UPtr); ok {
			return in.eq(a, u.v)
		}
		if _, ok := b.(*SymPtr); ok {
			if x == nil {
				return false
			}
			in.unsupported("comparison of symbolic pointer")
		}
		return false
	case UPtr:
		if y, ok := b.(UPtr); ok {
			return in.eq(x.v, y.v)
		}
		return in.eq(x.v, b)
	case *SymPtr:
		if isNilPtr(b) {
			return false
		}
		in.unsupported("comparison of symbolic pointer")
	case *ChanV:
		return x == b.(*ChanV)
	case *MapV:
		y, _ := b.(*MapV)
		return x == y
	case SliceV:
		y, _ := b.(SliceV)
		if x.s == nil && x.n == nil {
			return y.s == nil && y.n == nil
		}
		return false
	case *Closure:
		y, _ := b.(*Closure)
		return x == y
	case *Opaque:
		y, ok := b.(*Opaque)
		return ok && x == y
	case Struct:
		y := b.(Struct)
		var r Value = true
		for i := range x {
			r = in.and(r, in.eq(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		y := b.(Array)
		var r Value = true
		for i := range x {
			r = in.and(r, in.eq(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			in.unsupported("compare interface with %T", b)
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		switch x.v.(type) {
		case SliceV, *MapV, *Closure:
			in.throw(in.runtimeError("comparing uncomparable type " + x.t.String()))
		}
		return in.eq(x.v, y.v)
	case nil:
		return b == nil
	}
	in.unsupported("eq %T %T", a, b)
	return nil
}

// ---------- conversions

func (in *Interp) convert(to, from types.Type, v Value) Value {
	if tp, ok := to.(*types.TypeParam); ok {
		in.unsupported("type parameter %v", tp)
	}
	ut, uf := to.Underlying(), from.Underlying()
	// unsafe
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		switch x := v.(type) {
		case UPtr:
			return x
		case uint64:
			return UPtr{v: x}
		}
		return UPtr{v: v}
	}
	if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		u := v.(UPtr)
		if w, _ := intWidth(to); w > 0 {
			if p, ok := u.v.(*Value); ok {
				return uint64(uintptr(unsafe.Pointer(p)))
			}
			if n, ok := u.v.(uint64); ok {
				return n
			}
		}
		return u.v
	}
	wt, _ := intWidth(to)
	wf, sf := intWidth(from)
	switch {
	case wt > 0 && wf > 0:
		switch x := v.(type) {
		case uint64:
			if sf {
				return uint64(sext(x, wf)) & mask(wt)
			}
			return x & mask(wt)
		case *Term:
			if wt <= wf {
				return lower(in.ctx.Extract(x, wt-1, 0))
			}
			if sf {
				return lower(in.ctx.SExt(x, wt))
			}
			return lower(in.ctx.ZExt(x, wt))
		}
	case wt > 0 && isFloat(from):
		switch x := v.(type) {
		case float64:
			_, st := intWidth(to)
			if st {
				return uint64(int64(x)) & mask(wt)
			}
			return uint64(x) & mask(wt)
		case *Term:
			return lower(in.ctx.F(OFToS, wt, x))
		}
	case isFloat(to) && wf > 0:
		f32 := basicOf(to).Kind() == types.Float32
		switch x := v.(type) {
		case uint64:
			var r float64
			if sf {
				r = float64(sext(x, wf))
			} else {
				r = float64(x)
			}
			if f32 {
				r = float64(float32(r))
			}
			return r
		case *Term:
			if f32 {
				in.unsupported("symbolic float32")
			}
			if sf {
				return lower(in.ctx.F(OFFromS, SFP, x))
			}
			return lower(in.ctx.F(OFFromU, SFP, x))
		}
	case isFloat(to) && isFloat(from):
		if x, ok := v.(float64); ok && basicOf(to).Kind() == types.Float32 {
			return float64(float32(x))
		}
		return v
	case isString(to):
		if wf > 0 { // rune to string
			if x, ok := v.(uint64); ok {
				return string(rune(sext(x, wf)))
			}
			t := v.(*Term)
			if in.branch(lower(in.ctx.Cmp(OUlt, in.ctx.ZExt(t, 64), in.ctx.BV(128, 64)))) {
				return mkStr([]Value{lower(in.ctx.Extract(t, 7, 0))})
			}
			return string(rune(sext(in.concretize(v), wf)))
		}
		if sl, ok := uf.(*types.Slice); ok {
			s := v.(SliceV)
			if s.n != nil {
				in.unsupported("string of symbolic-length slice")
			}
			w, _ := intWidth(sl.Elem())
			if w == 8 {
				return mkStr(s.s)
			}
			// []rune
			var out Value = ""
			for _, r := range s.s {
				out = concatStr(out, in.convert(types.Typ[types.String], types.Typ[types.Rune], r))
			}
			return out
		}
		if isString(from) {
			return v
		}
	case isString(from):
		if sl, ok := ut.(*types.Slice); ok {
			w, _ := intWidth(sl.Elem())
			if w == 8 {
				b := strBytes(v)
				nb := make([]Value, len(b))
				copy(nb, b)
				return SliceV{s: nb}
			}
			// []rune
			var rs []Value
			pos := 0
			for pos < strLen(v) {
				r, n := in.decodeRune(v, pos)
				rs = append(rs, r)
				pos += n
			}
			if rs == nil {
				rs = []Value{}
			}
			return SliceV{s: rs}
		}
	}
	if types.Identical(ut, uf) {
		return v
	}
	switch ut.(type) {
	case *types.Pointer, *types.Slice, *types.Chan, *types.Map, *types.Signature, *types.Struct, *types.Array, *types.Interface:
		if sl, ok := uf.(*types.Slice); ok {
			if at, ok := ut.(*types.Array); ok {
				_ = sl
				s := v.(SliceV)
				if len(s.s) < int(at.Len()) {
					in.throw(in.runtimeError("cannot convert slice to array"))
				}
				return copyVal(Array(s.s[:at.Len()]))
			}
		}
		return v
	}
	in.unsupported("convert %v to %v", from, to)
	return nil
}

// decodeRune decodes one rune of a (possibly symbolic) string.
func (in *Interp) decodeRune(v Value, pos int) (Value, int) {
	if s, ok := v.(string); ok {
		r, n := utf8.DecodeRuneInString(s[pos:])
		return uint64(uint32(r)), n
	}
	b := v.(*SymStr).b[pos:]
	switch x := b[0].(type) {
	case uint64:
		if x < 0x80 {
			return x, 1
		}
	case *Term:
		if in.branch(lower(in.ctx.Cmp(OUlt, x, in.ctx.BV(0x80, 8)))) {
			return lower(in.ctx.ZExt(x, 32)), 1
		}
	}
	// concretise a multi-byte sequence
	n := len(b)
	if n > 4 {
		n = 4
	}
	buf := make([]byte, 0, 4)
	for i := 0; i < n; i++ {
		buf = append(buf, byte(in.concretize(b[i])))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, k := utf8.DecodeRune(buf)
	return uint64(uint32(r)), k
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	i := v.(Iface)
	ok := false
	var res Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.t != nil && in.eng.implements(i.t, it) {
			ok = true
			res = i
		} else {
			res = Iface{}
		}
	} else {
		if i.t != nil && types.Identical(i.t, x.AssertedType) {
			ok = true
			res = i.v
		} else {
			res = zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{res, ok}
	}
	if !ok {
		dyn := "nil"
		if i.t != nil {
			dyn = i.t.String()
		}
		in.throw(in.runtimeError("interface conversion: interface is " + dyn + ", not " + x.AssertedType.String()))
	}
	return res
}

// ---------- indexing and slicing

// boundIdx checks 0 <= idx < n and returns idx (concrete int or term).
func (in *Interp) boundIdx(idx Value, it types.Type, n int, symN *Term) (int, *Term) {
	w, signed := intWidth(it)
	switch x := idx.(type) {
	case uint64:
		i := int64(x)
		if signed {
			i = sext(x, w)
		}
		if symN != nil {
			if i < 0 || !in.branch(lower(in.ctx.Cmp(OSlt, in.ctx.BV(uint64(i), 64), symN))) {
				in.throw(in.runtimeError("index out of range"))
			}
			if i >= int64(n) {
				in.fail("bound", "access beyond the materialised part of a symbolic-length buffer")
			}
			return int(i), nil
		}
		if i < 0 || i >= int64(n) {
			in.throw(in.runtimeError(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return int(i), nil
	case *Term:
		if symN != nil {
			return in.boundIdx(in.concretize(x), it, n, symN)
		}
		t := x
		if signed {
			t = in.ctx.SExt(t, 64)
		} else {
			t = in.ctx.ZExt(t, 64)
		}
		if !in.branch(lower(in.ctx.Cmp(OUlt, t, in.ctx.BV(uint64(n), 64)))) {
			in.throw(in.runtimeError("index out of range"))
		}
		if t.isConst() {
			return int(t.val), nil
		}
		return 0, t
	}
	panic(fmt.Sprintf("boundIdx %T", idx))
}

func (in *Interp) indexAddr(base, idx Value, it types.Type, bt types.Type) Value {
	var el []Value
	var symN *Term
	var et types.Type
	switch x := base.(type) {
	case SliceV:
		el, symN = x.s, x.n
		et = bt.Underlying().(*types.Slice).Elem()
	case *Value:
		if x == nil {
			in.nilDeref()
		}
		a, ok := (*x).(Array)
		if !ok {
			in.unsupported("index address of %T", *x)
		}
		el = a
		et = bt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
	default:
		in.unsupported("indexAddr of %T", base)
	}
	if ti, ok := idx.(*Term); ok && symN != nil {
		// symbolic-length byte buffer: beyond the materialised part every
		// cell is an unconstrained byte
		w, signed := intWidth(it)
		t := ti
		if w < 64 && signed {
			t = in.ctx.SExt(t, 64)
		} else if w < 64 {
			t = in.ctx.ZExt(t, 64)
		}
		if !in.branch(lower(in.ctx.Cmp(OUlt, t, symN))) {
			in.throw(in.runtimeError("index out of range"))
		}
		if !in.branch(lower(in.ctx.Cmp(OUlt, t, in.ctx.BV(uint64(len(el)), 64)))) {
			var cell Value = in.fresh("lazybyte", 8)
			return &cell
		}
		return &SymPtr{elems: el, idx: t}
	}
	i, t := in.boundIdx(idx, it, len(el), symN)
	if t == nil {
		return &el[i]
	}
	if w, _ := intWidth(et); w > 0 || isBoolT(et) {
		return &SymPtr{elems: el, idx: t}
	}
	return &el[in.concretize(t)]
}

func (in *Interp) index(base, idx Value, it types.Type, rt types.Type) Value {
	var el []Value
	switch x := base.(type) {
	case Array:
		el = x
	case string, *SymStr:
		if s, ok := base.(string); ok {
			if u, ok := idx.(uint64); ok {
				w, signed := intWidth(it)
				i := int64(u)
				if signed {
					i = sext(u, w)
				}
				if i < 0 || i >= int64(len(s)) {
					in.throw(in.runtimeError(fmt.Sprintf("index out of range [%d] with length %d", i, len(s))))
				}
				return uint64(s[i])
			}
		}
		el = strBytes(base)
	default:
		in.unsupported("index of %T", base)
	}
	i, t := in.boundIdx(idx, it, len(el), nil)
	if t == nil {
		return el[i]
	}
	w, _ := intWidth(rt)
	if w == 0 && isBoolT(rt) {
		w = SBool
	} else if w == 0 {
		return el[in.concretize(t)]
	}
	return in.symIndex(el, t, w)
}

func (in *Interp) toInt(v Value, t types.Type) Value { // to 64-bit signed value
	w, signed := intWidth(t)
	switch x := v.(type) {
	case uint64:
		if signed {
			return uint64(sext(x, w))
		}
		return x
	case *Term:
		if signed {
			return lower(in.ctx.SExt(x, 64))
		}
		return lower(in.ctx.ZExt(x, 64))
	}
	panic("toInt")
}

func (in *Interp) slice(f *frame, x *ssa.Slice) Value {
	base := in.get(f, x.X)
	arg := func(v ssa.Value) Value {
		if v == nil {
			return nil
		}
		return in.toInt(in.get(f, v), v.Type())
	}
	lo, hi, max := arg(x.Low), arg(x.High), arg(x.Max)
	oob := func() { in.throw(in.runtimeError("slice bounds out of range")) }
	if isString(x.X.Type()) {
		n := strLen(base)
		l, h := 0, n
		if hi != nil {
			h = in.sliceBound(hi, 0, n)
		}
		if lo != nil {
			l = in.sliceBound(lo, 0, h)
		}
		if s, ok := base.(string); ok {
			return s[l:h]
		}
		return mkStr(base.(*SymStr).b[l:h])
	}
	var s SliceV
	switch b := base.(type) {
	case SliceV:
		s = b
	case *Value:
		if b == nil {
			in.nilDeref()
		}
		a, ok := (*b).(Array)
		if !ok {
			in.unsupported("slice of pointer to %T", *b)
		}
		s = SliceV{s: []Value(a)}
		if a == nil {
			s.s = []Value{}
		}
	default:
		in.unsupported("slice of %T", base)
	}
	if s.n != nil {
		if hi != nil || max != nil {
			if hi != nil && max == nil {
				// s[lo:hi] of a symbolic-length slice
				h := in.concretize(hi)
				if int64(h) < 0 || !in.branch(lower(in.ctx.Cmp(OSle, in.ctx.BV(h, 64), s.n))) {
					oob()
				}
				if h > uint64(len(s.s)) {
					in.fail("bound", "slice beyond the materialised part of a symbolic-length buffer")
				}
				l := uint64(0)
				if lo != nil {
					l = in.concretize(lo)
				}
				if l > h {
					oob()
				}
				return SliceV{s: s.s[l:h:h]}
			}
			in.unsupported("three-index slice of symbolic-length buffer")
		}
		l := uint64(0)
		if lo != nil {
			l = in.concretize(lo)
		}
		if int64(l) < 0 || !in.branch(lower(in.ctx.Cmp(OSle, in.ctx.BV(l, 64), s.n))) {
			oob()
		}
		if l > uint64(len(s.s)) {
			in.fail("bound", "slice beyond the materialised part of a symbolic-length buffer")
		}
		n := in.ctx.Bin(OSub, s.n, in.ctx.BV(l, 64))
		if n.isConst() {
			return SliceV{s: s.s[l:][:n.val]}
		}
		return SliceV{s: s.s[l:], n: n}
	}
	cp := cap(s.s)
	if max != nil {
		m := in.sliceBound(max, 0, cp)
		cp = m
	}
	h := len(s.s)
	if hi != nil {
		h = in.sliceBound(hi, 0, cp)
	} else if h > cp {
		oob()
	}
	l := 0
	if lo != nil {
		l = in.sliceBound(lo, 0, h)
	}
	if s.s == nil {
		return SliceV{}
	}
	return SliceV{s: s.s[l:h:cp]}
}

func (in *Interp) sliceBound(v Value, lo, hi int) int {
	switch x := v.(type) {
	case uint64:
		i := int64(x)
		if i < int64(lo) || i > int64(hi) {
			in.throw(in.runtimeError(fmt.Sprintf("slice bounds out of range [%d] with limit %d", i, hi)))
		}
		return int(i)
	case *Term:
		ok := in.ctx.Cmp(OUle, x, in.ctx.BV(uint64(hi), 64))
		if !in.branch(lower(ok)) {
			in.throw(in.runtimeError("slice bounds out of range"))
		}
		return int(in.concretize(x))
	}
	panic("sliceBound")
}

const lazyLen = 512

func (in *Interp) makeSlice(t types.Type, n, c Value) Value {
	et := t.Underlying().(*types.Slice).Elem()
	if tn, ok := n.(*Term); ok {
		if tn.w < 64 {
			in.unsupported("make with narrow symbolic length")
		}
		if in.branch(lower(in.ctx.Cmp(OSlt, tn, in.ctx.BV(0, 64)))) {
			in.throw(in.runtimeError("makeslice: len out of range"))
		}
		// small ranges are concretised
		if umax(tn) <= 64 {
			n = in.concretize(tn)
			if _, ok := c.(*Term); ok {
				c = n
			}
		} else {
			if w, _ := intWidth(et); w != 8 {
				n = in.concretize(tn)
				c = n
			} else {
				if in.branch(lower(in.ctx.Cmp(OSlt, in.ctx.BV(1<<33, 64), tn))) {
					in.throw(in.runtimeError("makeslice: len out of range"))
				}
				s := make([]Value, lazyLen)
				for i := range s {
					s[i] = uint64(0)
				}
				return SliceV{s: s, n: tn}
			}
		}
	}
	ln := int64(in.concretize(n))
	cp := int64(in.concretize(c))
	if ln < 0 || ln > 1<<40 {
		in.throw(in.runtimeError("makeslice: len out of range"))
	}
	if cp < ln {
		in.throw(in.runtimeError("makeslice: cap out of range"))
	}
	if cp > 1<<22 {
		in.fail("bound", "very large allocation (%d)", cp)
	}
	s := make([]Value, cp)
	if cp > 0 {
		z := zero(et)
		switch z.(type) {
		case Struct, Array:
			for i := range s {
				s[i] = zero(et)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	return SliceV{s: s[:ln]}
}

// ---------- maps

func (in *Interp) newMap() *MapV { return &MapV{idx: map[string]int{}, epoch: in.epoch()} }

func (in *Interp) mapTouch(m *MapV) {
	if in.initing > 0 || m.epoch == in.w.epoch {
		return
	}
	old := *m
	oe := make([]*mapEntry, len(m.ents))
	for i, e := range m.ents {
		c := *e
		oe[i] = &c
	}
	old.ents = oe
	oi := make(map[string]int, len(m.idx))
	for k, v := range m.idx {
		oi[k] = v
	}
	old.idx = oi
	m.epoch = in.w.epoch
	in.undo = append(in.undo, undoRec{f: func() { *m = old }})
}

func (in *Interp) hashable(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil {
		switch i.v.(type) {
		case SliceV, *MapV, *Closure:
			in.throw(in.runtimeError("hash of unhashable type " + i.t.String()))
		}
	}
}

func (in *Interp) mapFind(m *MapV, k Value) *mapEntry {
	in.hashable(k)
	var sb strings.Builder
	if canonKey(k, &sb) {
		if i, ok := m.idx[sb.String()]; ok {
			return m.ents[i]
		}
		if m.symk == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		c := in.eq(e.k, k)
		if b, ok := c.(bool); ok {
			if b {
				return e
			}
			continue
		}
		if in.branch(c) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *MapV, k, v Value) {
	e := in.mapFind(m, k)
	in.mapTouch(m)
	if e != nil {
		// the touch may have replaced entries only in the undo copy
		e.v = v
		return
	}
	ne := &mapEntry{k: copyVal(k), v: v}
	var sb strings.Builder
	if canonKey(k, &sb) {
		m.idx[sb.String()] = len(m.ents)
	} else {
		m.symk++
	}
	m.ents = append(m.ents, ne)
	m.live++
}

func (in *Interp) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	in.mapTouch(m)
	e.deleted = true
	m.live--
	var sb strings.Builder
	if canonKey(e.k, &sb) {
		delete(m.idx, sb.String())
	} else {
		m.symk--
	}
}

func (in *Interp) lookup(x *ssa.Lookup, base, k Value) Value {
	if isString(x.X.Type()) {
		return in.index(base, k, x.Index.Type(), types.Typ[types.Uint8])
	}
	m := base.(*MapV)
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	var e *mapEntry
	if m != nil {
		e = in.mapFind(m, k)
	} else {
		in.hashable(k)
	}
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = zero(vt)
	}
	if x.CommaOk {
		return Tuple{v, e != nil}
	}
	return v
}

type rangeIter struct {
	str  Value
	pos  int
	m    *MapV
	todo []*mapEntry
}

func (in *Interp) newRange(v Value) Value {
	switch x := v.(type) {
	case string, *SymStr:
		return &rangeIter{str: v}
	case *MapV:
		it := &rangeIter{m: x}
		if x != nil {
			for _, e := range x.ents {
				if !e.deleted {
					it.todo = append(it.todo, e)
				}
			}
		}
		return it
	}
	in.unsupported("range over %T", v)
	return nil
}

func (in *Interp) next(f *frame, x *ssa.Next) Value {
	it := in.get(f, x.Iter).(*rangeIter)
	if x.IsString {
		if it.pos >= strLen(it.str) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		p := it.pos
		r, n := in.decodeRune(it.str, p)
		it.pos += n
		return Tuple{true, uint64(p), r}
	}
	live := it.todo[:0:0]
	for _, e := range it.todo {
		if !e.deleted {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		it.todo = nil
		tt := x.Type().(*types.Tuple)
		var kz, vz Value
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			kz = zero(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			vz = zero(tt.At(2).Type())
		}
		return Tuple{false, kz, vz}
	}
	i := 0
	if in.mapMode == 1 && len(live) > 1 && in.initing == 0 {
		i = in.pickOrder(len(live))
	}
	e := live[i]
	rest := make([]*mapEntry, 0, len(live)-1)
	rest = append(rest, live[:i]...)
	rest = append(rest, live[i+1:]...)
	it.todo = rest
	return Tuple{true, copyVal(e.k), copyVal(e.v)}
}

// ---------- builtins

func (in *Interp) builtin(g *Gor, f *frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		if m, ok := args[0].(*MapV); ok && m != nil && f != nil && in.raceCells {
			in.accessed(m, g, f.fn, false, "map access")
		}
		switch x := args[0].(type) {
		case string:
			return uint64(len(x))
		case *SymStr:
			return uint64(len(x.b))
		case SliceV:
			if x.n != nil {
				return x.n
			}
			return uint64(len(x.s))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.live)
		case *ChanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			if x.n != nil {
				return x.n
			}
			return uint64(cap(x.s))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		case *ChanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(SliceV)
		var add []Value
		switch y := args[1].(type) {
		case SliceV:
			if y.n != nil {
				in.unsupported("append of symbolic-length slice")
			}
			add = y.s
		case string, *SymStr:
			add = strBytes(y)
		}
		if s.n != nil {
			in.unsupported("append to symbolic-length slice")
		}
		return in.appendVals(s, add)
	case "copy":
		return in.copySlice(args[0].(SliceV), args[1])
	case "delete":
		if m := args[0].(*MapV); m != nil && f != nil {
			in.accessed(m, g, f.fn, true, "map access")
		}
		in.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				in.mapTouch(x)
				for _, e := range x.ents {
					e.deleted = true
				}
				x.live, x.symk = 0, 0
				x.idx = map[string]int{}
			}
		case SliceV:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.s {
				in.storeTo(&x.s[i], zero(et))
			}
		}
		return nil
	case "close":
		in.closeChan(args[0].(*ChanV))
		return nil
	case "panic":
		in.throw(args[0])
	case "recover":
		// the caller of recover must be a deferred function of a panicking frame
		if f.isDefer && f.parent != nil && f.parent.panicking && !f.parent.recovered {
			f.parent.recovered = true
			f.parent.panicking = true
			v := f.parent.pval
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			in.nilDeref()
		}
		return args[0]
	case "min", "max":
		t := call.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			var c Value
			if b.Name() == "min" {
				c = in.binop(token.LSS, t, t, a, r)
			} else {
				c = in.binop(token.GTR, t, t, a, r)
			}
			if in.branch(c) {
				r = a
			}
		}
		return r
	case "String": // unsafe.String
		n := int(in.concretize(args[1]))
		if n == 0 {
			return ""
		}
		p := args[0].(*Value)
		return mkStr(unsafe.Slice(p, n))
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return (*Value)(nil)
		}
		nb := make([]Value, len(b))
		copy(nb, b)
		return &nb[0]
	case "SliceData":
		s := args[0].(SliceV)
		if cap(s.s) == 0 {
			return (*Value)(nil)
		}
		return &s.s[:1][0]
	case "Slice":
		n := int(in.concretize(args[1]))
		p := args[0].(*Value)
		if p == nil {
			return SliceV{}
		}
		return SliceV{s: unsafe.Slice(p, n)}
	case "Add":
		p := args[0].(UPtr)
		if n := in.concretize(args[1]); n == 0 {
			return p
		}
		in.unsupported("unsafe.Add")
	}
	in.unsupported("builtin %s(%T)", b.Name(), args[0])
	return nil
}

func (in *Interp) appendVals(s SliceV, add []Value) Value {
	if len(add) == 0 {
		return s
	}
	need := len(s.s) + len(add)
	if need <= cap(s.s) {
		ns := s.s[:need]
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			// a store into memory that may be shared
			p := &ns[len(s.s)+i]
			in.logStore(p)
			*p = tmp[i]
		}
		return SliceV{s: ns}
	}
	nc := growCap(cap(s.s), need)
	ns := make([]Value, need, nc)
	copy(ns, s.s)
	for i := range s.s {
		ns[i] = copyVal(s.s[i])
	}
	for i := range add {
		ns[len(s.s)+i] = copyVal(add[i])
	}
	// the spare capacity must hold well-formed values
	full := ns[:nc]
	for i := need; i < nc; i++ {
		full[i] = zeroLike(add[0])
	}
	return SliceV{s: ns}
}

func zeroLike(v Value) Value {
	switch x := v.(type) {
	case bool:
		return false
	case uint64:
		return uint64(0)
	case float64:
		return float64(0)
	case string, *SymStr:
		return ""
	case *Term:
		if x.w == SBool {
			return false
		}
		if x.w == SFP {
			return float64(0)
		}
		return uint64(0)
	case *Value, *SymPtr:
		return (*Value)(nil)
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = zeroLike(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = zeroLike(x[i])
		}
		return r
	case SliceV:
		return SliceV{}
	case *MapV:
		return (*MapV)(nil)
	case *ChanV:
		return (*ChanV)(nil)
	case *Closure:
		return (*Closure)(nil)
	case Iface:
		return Iface{}
	case UPtr:
		return UPtr{v: (*Value)(nil)}
	}
	return v
}

// growCap mirrors the runtime's amortised growth (exact size classes are not
// modelled; only aliasing after append could observe them).
func growCap(old, need int) int {
	nc := old * 2
	if old >= 256 {
		nc = old + (old+768)/4
	}
	if nc < need {
		nc = need
	}
	if nc < 4 && need > 0 && old == 0 && need == 1 {
		return 1
	}
	return nc
}

func (in *Interp) copySlice(dst SliceV, src Value) Value {
	var sv []Value
	var sn *Term
	switch y := src.(type) {
	case SliceV:
		sv, sn = y.s, y.n
	default:
		sv = strBytes(src)
	}
	if sn != nil && dst.n != nil {
		in.unsupported("copy between symbolic-length slices")
	}
	n := 0
	switch {
	case sn != nil:
		// min(len(dst), sn)
		if in.branch(lower(in.ctx.Cmp(OSle, in.ctx.BV(uint64(len(dst.s)), 64), sn))) {
			n = len(dst.s)
		} else {
			n = int(in.concretize(sn))
		}
		if n > len(sv) {
			in.fail("bound", "copy beyond the materialised part of a symbolic-length buffer")
		}
	case dst.n != nil:
		if in.branch(lower(in.ctx.Cmp(OSle, in.ctx.BV(uint64(len(sv)), 64), dst.n))) {
			n = len(sv)
		} else {
			n = int(in.concretize(dst.n))
		}
		if n > len(dst.s) {
			in.fail("bound", "copy beyond the materialised part of a symbolic-length buffer")
		}
	default:
		n = len(dst.s)
		if len(sv) < n {
			n = len(sv)
		}
	}
	tmp := make([]Value, n)
	for i := 0; i < n; i++ {
		tmp[i] = copyVal(sv[i])
	}
	for i := 0; i < n; i++ {
		in.storeTo(&dst.s[i], tmp[i])
	}
	return uint64(n)
}

// rollback undoes all heap changes of the path.
func (in *Interp) rollback() {
	for i := len(in.undo) - 1; i >= 0; i-- {
		u := in.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	in.undo = nil
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
