package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Worker struct {
	eng     *Engine
	solver  *Solver
	consts  map[*ssa.Const]Value
	fnClos  map[*ssa.Function]*Closure
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	fns     map[*ssa.Function]*FnInfo
	epoch   int
	tick    int
	uniq    map[string]*Value
	syncMap map[*Value]*MapV // sync.Map contents set up by initialisers
}

func newWorker(e *Engine) *Worker {
	return &Worker{eng: e, solver: &Solver{}, consts: map[*ssa.Const]Value{}, fnClos: map[*ssa.Function]*Closure{},
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, fns: map[*ssa.Function]*FnInfo{}, epoch: 0, syncMap: map[*Value]*MapV{}, uniq: map[string]*Value{}}
}

type item struct {
	d     *dec
	model map[string]uint64
}

// Run is the exploration of one harness.
type Run struct {
	eng      *Engine
	name     string
	entry    *ssa.Function
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []item
	active   int
	stop     bool
	deadline time.Time
	maxPaths int64

	paths      int64
	done       int64
	infeasible int64
	ended      map[string]int64
	notes      map[string]int
	reached    map[string]int64
	asserts    int64
	steps      int64
	fns        map[string]bool
	models     map[string]bool
	viols      map[string]*Violation
	inputVars  int
	maxDepth   int
	wall       time.Duration
	debug      bool
	samples    []map[string][]uint64
	decisions  int64
}

func (r *Run) note(msg string) {
	r.mu.Lock()
	r.notes[msg]++
	r.mu.Unlock()
}

func (r *Run) push(it item) {
	r.mu.Lock()
	r.stack = append(r.stack, it)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) next() (item, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return item{}, false
		}
		if len(r.stack) > 0 {
			if time.Now().After(r.deadline) {
				r.stop = true
				r.notes["time limit reached with unexplored paths"]++
				r.cond.Broadcast()
				return item{}, false
			}
			if r.maxPaths > 0 && atomic.LoadInt64(&r.paths) >= r.maxPaths {
				r.stop = true
				r.notes["path limit reached with unexplored paths"]++
				r.cond.Broadcast()
				return item{}, false
			}
			it := r.stack[len(r.stack)-1]
			r.stack = r.stack[:len(r.stack)-1]
			r.active++
			return it, true
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return item{}, false
		}
		r.cond.Wait()
	}
}

func (r *Run) finish() {
	r.mu.Lock()
	r.active--
	if r.active == 0 && len(r.stack) == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (e *Engine) newRun(name string, entry *ssa.Function, limit time.Duration, maxPaths int64) *Run {
	r := &Run{eng: e, name: name, entry: entry, deadline: time.Now().Add(limit), maxPaths: maxPaths,
		ended: map[string]int64{}, notes: map[string]int{}, reached: map[string]int64{}, fns: map[string]bool{}, models: map[string]bool{}, viols: map[string]*Violation{}}
	r.cond = sync.NewCond(&r.mu)
	return r
}

func (e *Engine) explore(r *Run, workers []*Worker) {
	e.run = r
	e.harness = r.name
	t0 := time.Now()
	r.stack = append(r.stack, item{})
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				it, ok := r.next()
				if !ok {
					return
				}
				r.runPath(w, it)
				r.finish()
			}
		}(w)
	}
	wg.Wait()
	r.wall = time.Since(t0)
}

func (r *Run) newInterp(w *Worker, it item) *Interp {
	w.epoch++
	in := &Interp{eng: r.eng, w: w, ctx: NewCtx(), model: it.model, memo: map[*Term]uint64{},
		pathFns: map[*ssa.Function]bool{}, mutexes: map[*Value]*mutexState{}, wgs: map[*Value]*int64{},
		side: map[string]any{}, reached: map[string]bool{}}
	if in.model == nil {
		in.model = map[string]uint64{}
	}
	if it.d != nil {
		in.prefix = make([]uint64, it.d.n)
		for d := it.d; d != nil; d = d.parent {
			in.prefix[d.n-1] = d.v
		}
	}
	in.spawn = func(d *dec, m map[string]uint64) { r.push(item{d, m}) }
	return in
}

func (r *Run) runPath(w *Worker, it item) {
	in := r.newInterp(w, it)
	end, msg := in.runEntry(r.entry)
	atomic.AddInt64(&r.paths, 1)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ended[end]++
	switch end {
	case "unsupported", "bound", "internal":
		r.notes[end+": "+msg]++
	case "violation":
		v := in.violation
		k := v.Kind + "|" + v.Label
		if o := r.viols[k]; o == nil {
			r.viols[k] = v
		} else if len(o.alts) < 64 {
			o.alts = append(o.alts, v)
		}
		if !r.eng.known[v.Label] {
			n := 0
			for _, v := range r.viols {
				if !r.eng.known[v.Label] {
					n++
				}
			}
			if r.ended["violation"] > 40 || n > 8 {
				r.stop = true
				r.cond.Broadcast()
			}
		}
	}
	if end == "done" {
		newReach := false
		for l := range in.reached {
			if r.reached[l] == 0 {
				newReach = true
			}
		}
		// samples: paths that reach something new, then every power of two
		if newReach || r.ended["done"]&(r.ended["done"]-1) == 0 {
			if len(r.samples) < 40 {
				r.samples = append(r.samples, in.inputValues())
			}
		}
	}
	for l := range in.reached {
		r.reached[l]++
	}
	if in.trace != nil {
		r.decisions += int64(in.trace.n - len(in.prefix))
		if r.paths == 1 {
			r.decisions += int64(len(in.prefix))
		}
	}
	r.asserts += int64(in.asserts)
	r.steps += in.steps
	for f, real := range in.pathFns {
		if real {
			r.fns[f.String()] = true
		} else {
			r.models[f.String()] = true
		}
	}
	if len(in.ctx.vars) > r.inputVars {
		r.inputVars = len(in.ctx.vars)
	}
	if in.trace != nil && in.trace.n > r.maxDepth {
		r.maxDepth = in.trace.n
	}
	if r.debug {
		fmt.Fprintf(os.Stderr, "path %d end=%s %s steps=%d pc=%d trace=%v notes=%v\n", r.paths, end, msg, in.steps, len(in.pc), in.traceList(), in.notes)
	}
}

// runEntry executes the harness once under the interpreter's decisions.
func (in *Interp) runEntry(entry *ssa.Function) (end, msg string) {
	defer func() {
		in.initing = 0
		in.rollback()
		if x := recover(); x != nil {
			switch p := x.(type) {
			case pathEnd:
				end, msg = p.kind, p.msg
			case goPanic:
				end, msg = "internal", "stray panic "+in.panicText(p.v)
			default:
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i > 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				end, msg = "internal", fmt.Sprintf("%v at %s\n%s", x, in.where(), st)
			}
		}
	}()
	main := &Gor{id: 0, name: "main"}
	in.gors = []*Gor{main}
	in.cur = main
	main.frames = []*frame{in.newFrame(entry, nil, nil)}
	in.runMain()
	return "done", ""
}

func (r *Run) complete() bool {
	for k := range r.notes {
		if !strings.HasPrefix(k, "info:") {
			return false
		}
	}
	return true
}

func (r *Run) noteList() []string {
	var out []string
	for k, n := range r.notes {
		out = append(out, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}
