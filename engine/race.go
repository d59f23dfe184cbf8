package main

// Happens-before tracking: two accesses of the repository's code to one map
// (and, on request, one memory cell) that no synchronisation orders and of
// which one is a write are a defect in themselves: the runtime aborts the
// process or the state is arbitrary.

import (
	"fmt"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vclock []int32

func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (g *Gor) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

type access struct {
	g   int
	clk int32
	pos string
}

type raceState struct {
	w     access
	reads []access
}

// release publishes what g did so far to a synchronisation object.
func (in *Interp) release(o any, g *Gor) {
	if g == nil || g.id < 0 || len(in.gors) < 2 {
		return
	}
	if in.hb == nil {
		in.hb = map[any]*vclock{}
	}
	v := in.hb[o]
	if v == nil {
		v = &vclock{}
		in.hb[o] = v
	}
	if len(g.vc) <= g.id {
		g.tick()
	}
	v.join(g.vc)
	g.tick()
}

func (in *Interp) acquire(o any, g *Gor) {
	if g == nil || g.id < 0 {
		return
	}
	if v := in.hb[o]; v != nil {
		g.vc.join(*v)
	}
}

func (in *Interp) syncBoth(o any, g *Gor) {
	in.acquire(o, g)
	in.release(o, g)
}

// handoff orders two goroutines that meet at a channel.
func (in *Interp) handoff(a, b *Gor) {
	if a == nil || b == nil {
		return
	}
	a.tick()
	b.tick()
	a.vc.join(b.vc)
	b.vc.join(a.vc)
	a.tick()
	b.tick()
}

// barrier orders everything before it with everything after it.
func (in *Interp) barrier() {
	var all vclock
	for _, g := range in.gors {
		g.tick()
		all.join(g.vc)
	}
	for _, g := range in.gors {
		g.vc.join(all)
		g.tick()
	}
}

// raceRelevant: the function is the repository's own, non-harness code.
func (in *Interp) raceRelevant(fn *ssa.Function) bool {
	if v, ok := in.eng.raceRel.Load(fn); ok {
		return v.(bool)
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	ok := false
	if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), repoMod) && !strings.Contains(f.Pkg.Pkg.Path(), "/verif") {
		ok = true
		if p := in.eng.prog.Fset.Position(f.Pos()); p.IsValid() && strings.HasPrefix(filepath.Base(p.Filename), "h_") {
			ok = false
		}
	}
	in.eng.raceRel.Store(fn, ok)
	return ok
}

func (in *Interp) accessed(o any, g *Gor, fn *ssa.Function, write bool, what string) {
	if len(in.gors) < 2 || in.initing > 0 || g.id < 0 || !in.raceRelevant(fn) {
		return
	}
	if in.races == nil {
		in.races = map[any]*raceState{}
	}
	r := in.races[o]
	if r == nil {
		r = &raceState{w: access{g: -1}}
		in.races[o] = r
	}
	if len(g.vc) <= g.id {
		g.tick()
	}
	before := func(a access) bool {
		return a.g == g.id || (a.g < len(g.vc) && a.clk <= g.vc[a.g])
	}
	if r.w.g >= 0 && !before(r.w) {
		in.report("race", "concurrent "+what, fmt.Sprintf("unsynchronised with the write at %s", r.w.pos))
	}
	me := access{g.id, g.vc[g.id], fn.String()}
	if write {
		for _, a := range r.reads {
			if !before(a) {
				in.report("race", "concurrent "+what, fmt.Sprintf("unsynchronised with the access at %s", a.pos))
			}
		}
		r.w = me
		r.reads = r.reads[:0]
		return
	}
	for i := range r.reads {
		if r.reads[i].g == g.id {
			r.reads[i] = me
			return
		}
	}
	r.reads = append(r.reads, me)
}

// accessedCell handles plain loads and stores of the repository's code.
func (in *Interp) accessedCell(p Value, g *Gor, fn *ssa.Function, write bool) {
	q, ok := p.(*Value)
	if !ok || q == nil {
		return
	}
	in.accessed(q, g, fn, write, "memory access")
}
