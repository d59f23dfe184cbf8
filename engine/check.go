package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Harness is one VerifH_<prop>_* function with what its comments declare.
type Harness struct {
	Prop    string
	Pkg     string // package directory under the repository
	Fn      string
	Bounds  []string
	Outside []string
	Stubs   []string
	Reach   []string
	Limit   time.Duration
	Thor    bool
	File    string
}

var reachRe = regexp.MustCompile(`verifrt\.Reach\("([^"]+)"\)`)

// findHarnesses scans /verif/harness for the functions of a property.
func findHarnesses(verif, prop string, thorough bool) ([]Harness, error) {
	root := filepath.Join(verif, "harness")
	var hs []Harness
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || !strings.HasPrefix(filepath.Base(p), "h_") {
			return nil
		}
		if !useHarnessFile(p, map[string]bool{prop: true}) {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		src, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || !strings.HasPrefix(fd.Name.Name, "VerifH_"+prop+"_") {
				continue
			}
			h := Harness{Prop: prop, Pkg: rel, Fn: fd.Name.Name, Limit: 120 * time.Second, File: p}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					k, v, ok := strings.Cut(t, ":")
					if !ok {
						continue
					}
					v = strings.TrimSpace(v)
					switch k {
					case "bound":
						h.Bounds = append(h.Bounds, v)
					case "outside":
						h.Outside = append(h.Outside, v)
					case "stub":
						h.Stubs = append(h.Stubs, v)
					case "limit":
						if d, err := time.ParseDuration(v); err == nil {
							h.Limit = d
						}
					case "tier":
						h.Thor = v == "thorough"
					}
				}
			}
			body := string(src[fset.Position(fd.Pos()).Offset:fset.Position(fd.End()).Offset])
			for _, m := range reachRe.FindAllStringSubmatch(body, -1) {
				h.Reach = append(h.Reach, m[1])
			}
			if h.Thor && !thorough {
				continue
			}
			hs = append(hs, h)
		}
		return nil
	})
	sort.Slice(hs, func(i, j int) bool { return hs[i].Pkg+hs[i].Fn < hs[j].Pkg+hs[j].Fn })
	return hs, err
}

type knownFinding struct{ prop, label, text string }

func loadKnown(verif string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 label=<label> <text>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		fs := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(fs) < 3 {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(fs[0], "property="), strings.TrimPrefix(fs[1], "label="), fs[2]})
	}
	return out
}

// nativeRunner builds the harnesses against the real code with the ordinary
// compiler and runs them on concrete values.
type nativeRunner struct {
	repo, verif, prop string
	dir, modfile      string
	bin               string
	err               error
	once              sync.Once
	hs                []Harness
	race              bool // built with the race detector
	raceRunner        *nativeRunner
}

func (n *nativeRunner) build() {
	n.once.Do(func() {
		ov := map[string]string{}
		for dst, src := range overlayFiles(n.repo, n.verif) {
			if useHarnessFile(src, map[string]bool{n.prop: true}) {
				if np := prunedFiles[dst]; np != "" {
					src = np
				}
				ov[dst] = src
			}
		}
		var imports, cases []string
		seen := map[string]string{}
		target := "./verifmain"
		mainPkg := ""
		for _, h := range n.hs {
			if strings.HasPrefix(h.Pkg, "cmd/") {
				mainPkg = h.Pkg
			}
		}
		for _, h := range n.hs {
			if mainPkg != "" {
				if h.Pkg == mainPkg {
					cases = append(cases, fmt.Sprintf("case %q: verifrt.Run(%s)", h.Fn, h.Fn))
				}
				continue
			}
			al := seen[h.Pkg]
			if al == "" {
				al = fmt.Sprintf("p%d", len(seen))
				seen[h.Pkg] = al
				imports = append(imports, fmt.Sprintf("%s %q", al, repoMod+"/"+h.Pkg))
			}
			cases = append(cases, fmt.Sprintf("case %q: verifrt.Run(%s.%s)", h.Fn, al, h.Fn))
		}
		var src string
		if mainPkg == "" {
			src = "package main\n\nimport (\n\"os\"\n\"" + rtPkg + "\"\n" + strings.Join(imports, "\n") + "\n)\n\nfunc main() {\nswitch os.Args[1] {\n" + strings.Join(cases, "\n") + "\n}\n}\n"
			f := filepath.Join(n.dir, "main.go")
			os.WriteFile(f, []byte(src), 0o644)
			ov[filepath.Join(n.repo, "verifmain", "main.go")] = f
		} else {
			target = "./" + mainPkg
			src = "package main\n\nimport (\n\"os\"\n\"" + rtPkg + "\"\n)\n\nfunc init() {\nif os.Getenv(\"VERIF_RUN\") == \"\" { return }\nswitch os.Getenv(\"VERIF_RUN\") {\n" + strings.Join(cases, "\n") + "\n}\nos.Exit(0)\n}\n"
			f := filepath.Join(n.dir, "zz_verif_init.go")
			os.WriteFile(f, []byte(src), 0o644)
			ov[filepath.Join(n.repo, mainPkg, "zz_verif_init.go")] = f
		}
		var tags []string
		if n.usesCrash(ov) {
			// the file operations of the standard library ask the harness where the process dies
			if err := crashOverlay(n.verif, n.dir, ov); err != nil {
				n.err = err
				return
			}
			tags = []string{"-tags", "verifcrash"}
		}
		oj := filepath.Join(n.dir, "overlay.json")
		os.WriteFile(oj, []byte(jsonString(map[string]any{"Replace": ov})), 0o644)
		n.bin = filepath.Join(n.dir, "replay")
		args := append([]string{"build", "-overlay", oj, "-o", n.bin}, tags...)
		if n.modfile != "" {
			args = append(args, "-modfile="+n.modfile)
		}
		env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
		if n.race {
			args = append(args, "-race")
			env = append(env, "CGO_ENABLED=1")
		}
		c := exec.Command("go", append(args, target)...)
		c.Dir = n.repo
		c.Env = env
		o, err := c.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, o)
		}
	})
}

func (n *nativeRunner) usesCrash(ov map[string]string) bool {
	for _, src := range ov {
		if b, _ := os.ReadFile(src); strings.Contains(filepath.Base(src), "h_") && (bytes.Contains(b, []byte("verifrt.Crash(")) || bytes.Contains(b, []byte("verifrt.Fault("))) {
			return true
		}
	}
	return false
}

// crashOverlay wraps the system calls on files in a copy of package syscall.
func crashOverlay(verif, dir string, ov map[string]string) error {
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	src := filepath.Join(strings.TrimSpace(string(root)), "src", "syscall")
	for f, fns := range map[string][]string{"syscall_unix.go": {"Write", "Pwrite"}, "syscall_linux.go": {"Open", "Rename", "Unlink", "Mkdir"},
		"zsyscall_linux_amd64.go": {"Fsync", "Ftruncate", "Truncate"}} {
		b, err := os.ReadFile(filepath.Join(src, f))
		if err != nil {
			return err
		}
		for _, x := range fns {
			if !bytes.Contains(b, []byte("\nfunc "+x+"(")) {
				return fmt.Errorf("no function %s in %s", x, f)
			}
			b = bytes.Replace(b, []byte("\nfunc "+x+"("), []byte("\nfunc verif"+x+"("), 1)
		}
		p := filepath.Join(dir, "sys_"+f)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return err
		}
		ov[filepath.Join(src, f)] = p
	}
	b, err := os.ReadFile(filepath.Join(verif, "sys", "verif_fs.go.txt"))
	if err != nil {
		return err
	}
	p := filepath.Join(dir, "sys_verif_fs.go")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		return err
	}
	ov[filepath.Join(src, "verif_fs.go")] = p
	return nil
}

func (n *nativeRunner) run(fn string, inputs map[string][]uint64, tier string, limit time.Duration) string {
	n.build()
	if n.err != nil {
		return "BUILD-FAILED " + n.err.Error()
	}
	sc, _ := os.MkdirTemp(n.dir, "run")
	defer os.RemoveAll(sc)
	jf := filepath.Join(sc, "in.json")
	os.WriteFile(jf, []byte(jsonString(inputs)), 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, n.bin, fn)
	c.Dir = sc
	c.Env = append(os.Environ(), "VERIF_REPLAY="+jf, "VERIF_SCRATCH="+sc, "VERIF_RUN="+fn, "VERIF_TIER="+tier)
	c.WaitDelay = time.Second
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	c.Run()
	if ctx.Err() != nil {
		b.WriteString("\nVERIF-TIMEOUT\n")
	}
	return b.String()
}

// reproduced decides whether native output shows the violation.
func reproduced(v *Violation, out string) bool {
	switch v.Kind {
	case "assert":
		return strings.Contains(out, "VERIF-ASSERT "+v.Label+"\n")
	case "panic":
		return strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ") || strings.Contains(out, "signal SIGSEGV")
	case "race":
		return strings.Contains(out, "DATA RACE") || strings.Contains(out, "concurrent map")
	case "deadlock":
		return strings.Contains(out, "VERIF-TIMEOUT") || strings.Contains(out, "all goroutines are asleep")
	}
	return false
}

// confirmAny tries the other counterexamples found for the same assertion as well: one that relies on a
// value chosen by a model (such as the order of two ideal hashes) need not exist for real.
func (n *nativeRunner) confirmAny(v *Violation, tier string) (*Violation, string, int) {
	ok, out, tries := n.confirm(v, tier)
	if ok {
		return v, out, tries
	}
	if n.err != nil || v.Sched {
		return nil, out, tries
	}
	deadline := time.Now().Add(60 * time.Second)
	var mu sync.Mutex
	var found *Violation
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, a := range v.alts {
		mu.Lock()
		stop := found != nil
		mu.Unlock()
		if stop || time.Now().After(deadline) {
			break
		}
		sem <- true
		wg.Add(1)
		go func(a *Violation) {
			defer func() { <-sem; wg.Done() }()
			o := n.run(a.Harness, a.Inputs, tier, a.limit())
			mu.Lock()
			defer mu.Unlock()
			tries++
			if found == nil && reproduced(a, o) {
				found, out = a, o
			}
		}(a)
	}
	wg.Wait()
	return found, out, tries
}

// limit is how long a replay may take.
func (v *Violation) limit() time.Duration {
	if v.After > 25*time.Second && v.After < 3*time.Minute {
		return v.After + 15*time.Second
	}
	return 40 * time.Second
}

func (n *nativeRunner) confirm(v *Violation, tier string) (bool, string, int) {
	lim := v.limit()
	if v.Kind == "race" && !n.race {
		if n.raceRunner == nil {
			d := filepath.Join(n.dir, "race")
			os.MkdirAll(d, 0o755)
			n.raceRunner = &nativeRunner{repo: n.repo, verif: n.verif, prop: n.prop, dir: d, hs: n.hs, race: true, modfile: n.modfile}
			n.raceRunner.build()
		}
		if n.raceRunner.err == nil {
			return n.raceRunner.confirm(v, tier)
		}
	}
	out := n.run(v.Harness, v.Inputs, tier, lim)
	if reproduced(v, out) {
		return true, out, 1
	}
	// schedule or map order dependent: repeat
	maxTries := int64(400)
	if !v.Sched && !v.MapOrd {
		maxTries = 9
	}
	deadline := time.Now().Add(25 * time.Second)
	var tries int64 = 1
	var ok int32
	var mu sync.Mutex
	last := out
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(deadline) && atomic.LoadInt32(&ok) == 0 && atomic.LoadInt64(&tries) < maxTries {
				atomic.AddInt64(&tries, 1)
				o := n.run(v.Harness, v.Inputs, tier, lim)
				if reproduced(v, o) {
					atomic.StoreInt32(&ok, 1)
					mu.Lock()
					last = o
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return ok == 1, last, int(tries)
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func runCheck(prop string) int {
	t0 := time.Now()
	repo, verif := "/repo", "/verif"
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if v := os.Getenv("VERIF_DEV_REPO"); v != "" { // development only
		repo = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	thoroughTier = tier == "thorough"
	hs, err := findHarnesses(verif, prop, thoroughTier)
	if err != nil || len(hs) == 0 {
		fmt.Println("no harness for", prop, err)
		return 2
	}
	pats := map[string]bool{}
	var pl []string
	for _, h := range hs {
		if !pats[h.Pkg] {
			pats[h.Pkg] = true
			pl = append(pl, repoMod+"/"+h.Pkg)
		}
	}
	dir, _ := os.MkdirTemp("", "verif-"+prop+"-")
	defer os.RemoveAll(dir)
	e, err := loadEngine(repo, verif, dir, pl, map[string]bool{prop: true})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	loadT := time.Since(t0)
	var dropped []string
	if len(e.dropped) > 0 {
		var keep []Harness
		for _, h := range hs {
			if e.dropped[h.Fn] {
				dropped = append(dropped, h.Fn+": does not compile against the current tree, not decided")
				continue
			}
			keep = append(keep, h)
		}
		hs = keep
	}
	known := map[string]knownFinding{}
	for _, k := range loadKnown(verif) {
		if k.prop == prop {
			known[k.label] = k
			e.known[k.label] = true
		}
	}
	nat := &nativeRunner{modfile: e.modfile, repo: repo, verif: verif, prop: prop, dir: dir, hs: hs}
	if os.Getenv("VERIF_NONATIVE") == "" {
		go nat.build()
	}
	if tier == "thorough" {
		crossEvery = 20
	} else {
		crossEvery = 100
	}
	nw := 8
	if nw > runtime.NumCPU() {
		nw = runtime.NumCPU()
	}
	workers := make([]*Worker, nw)
	for i := range workers {
		workers[i] = newWorker(e)
	}
	var runs []*Run
	exhaustive := len(dropped) == 0
	problems := dropped
	var viols []*Violation
	budget := 600 * time.Second
	if tier == "quick" {
		budget = 420 * time.Second
	} else {
		budget = 3 * time.Hour
	}
	exit := 0
	reported := 0
	var confirmedKnown []string
	repDir := filepath.Join(verif, "evidence", "replay")
	report := func(v *Violation) {
		if exit == 0 && tier == "quick" && time.Since(t0) > 600*time.Second {
			problems = append(problems, "no time to confirm a counterexample for "+v.Label)
			exhaustive = false
			return
		}
		found, out, tries := nat.confirmAny(v, tier)
		ok := found != nil
		if ok {
			v = found
		}
		how := "native run of the real code"
		if !ok && (v.Sched || v.MapOrd) && nat.err == nil {
			// deterministic re-execution of the real code under the found schedule
			ok = e.reexec(v, workers[0])
			how = fmt.Sprintf("re-execution of the code under the recorded schedule (native repetition did not hit it in %d runs)", tries)
		}
		if !ok {
			problems = append(problems, fmt.Sprintf("counterexample for %s (%s) did not reproduce natively: %s", v.Label, v.Where, tail(out, 1500)))
			exhaustive = false
			fmt.Printf("UNCONFIRMED property=%s %s %s at %s inputs=%v\n", prop, v.Kind, v.Label, v.Where, v.Inputs)
			return
		}
		if k, isK := known[v.Label]; isK {
			confirmedKnown = append(confirmedKnown, v.Label)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
			return
		}
		os.MkdirAll(repDir, 0o755)
		rp := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, reported))
		os.WriteFile(rp, []byte(jsonString(map[string]any{"property": prop, "harness": v.Harness, "label": v.Label, "kind": v.Kind, "where": v.Where,
			"inputs": v.Inputs, "notes": v.Notes, "goroutines": v.Goros, "confirmed_by": how, "output": trunc(out, 4000), "decisions": v.Trace})), 0o644)
		fmt.Printf("%s: %s (%s) at %s; confirmed by %s\n  inputs %v notes %v\n", v.Harness, v.Label, v.Kind, v.Where, how, v.Inputs, v.Notes)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		reported++
		exit = 1
	}
	for _, h := range hs {
		fn := e.funcOf(repoMod+"/"+h.Pkg, h.Fn)
		lim := h.Limit
		if tier == "thorough" {
			lim *= 20
		}
		if left := budget - time.Since(t0); left < lim {
			lim = left
		}
		r := e.newRun(h.Fn, fn, lim, 0)
		r.debug = os.Getenv("VDEBUG") != ""
		e.explore(r, workers)
		runs = append(runs, r)
		if !r.complete() || r.stop && len(r.viols) == 0 {
			exhaustive = false
			for _, n := range r.noteList() {
				problems = append(problems, h.Fn+": "+n)
			}
		}
		for _, l := range h.Reach {
			if r.reached[l] == 0 && len(r.viols) == 0 {
				problems = append(problems, h.Fn+": reachability witness "+l+" not reached")
				exhaustive = false
			}
		}
		fmt.Printf("%s: paths=%d %v asserts=%d wall=%.1fs\n", h.Fn, r.paths, r.ended, r.asserts, r.wall.Seconds())
		for _, k := range sortedKeys(r.viols) {
			viols = append(viols, r.viols[k])
			report(r.viols[k])
		}
		if exit != 0 {
			break
		}
	}
	crossBad.Range(func(k, v any) bool {
		problems = append(problems, "solvers disagree on a query")
		exhaustive = false
		return true
	})
	// validate the encoding: run sampled explored paths natively
	validated, mismatched := 0, 0
	var samples []any
	if exit == 0 && os.Getenv("VERIF_NONATIVE") == "" {
		type vjob struct {
			h  Harness
			in map[string][]uint64
		}
		var jobs []vjob
		for i, r := range runs {
			n := 3
			if tier == "thorough" {
				n = 12
			}
			for _, s := range r.samples {
				if n == 0 {
					break
				}
				n--
				jobs = append(jobs, vjob{hs[i], s})
			}
		}
		var mu sync.Mutex
		sem := make(chan bool, 6)
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			sem <- true
			go func(j vjob) {
				defer func() { <-sem; wg.Done() }()
				out := nat.run(j.h.Fn, j.in, tier, 60*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if strings.Contains(out, "VERIF-END ok") {
					validated++
				} else {
					mismatched++
					problems = append(problems, fmt.Sprintf("sampled path of %s behaves differently natively: %s", j.h.Fn, tail(out, 1500)))
				}
				if len(samples) < 12 {
					samples = append(samples, map[string]any{"harness": j.h.Fn, "inputs": j.in, "native": trunc(strings.TrimSpace(out), 200)})
				}
			}(j)
		}
		wg.Wait()
	}
	writeEvidence(e, prop, tier, seed, verif, hs, runs, exhaustive, problems, viols, confirmedKnown, reported, validated, mismatched, samples, loadT, time.Since(t0))
	for _, p := range problems {
		fmt.Println("NOTE:", trunc(p, 2500))
	}
	fmt.Printf("%s %s: %d violation(s), exhaustive=%v, %.1fs\n", prop, tier, reported, exhaustive, time.Since(t0).Seconds())
	for _, w := range workers {
		w.solver.Close()
	}
	return exit
}

// reexec runs the recorded decisions again and expects the same violation.
func (e *Engine) reexec(v *Violation, w *Worker) bool {
	var fn = (*Run)(nil)
	_ = fn
	for path, p := range e.pkgs {
		if !strings.HasPrefix(path, repoMod) {
			continue
		}
		f := p.Func(v.Harness)
		if f == nil {
			continue
		}
		r := e.newRun(v.Harness, f, time.Minute, 0)
		e.run = r
		var d *dec
		for i, x := range v.Trace {
			d = &dec{parent: d, v: x, n: i + 1}
		}
		in := r.newInterp(w, item{d: d, model: v.Model})
		in.spawn = func(*dec, map[string]uint64) {}
		end, _ := in.runEntry(f)
		return end == "violation" && in.violation != nil && in.violation.Label == v.Label
	}
	return false
}

func writeEvidence(e *Engine, prop, tier string, seed int, verif string, hs []Harness, runs []*Run, exhaustive bool, problems []string, viols []*Violation, knownL []string, reported, validated, mismatched int, samples []any, loadT, wall time.Duration) {
	var paths, asserts, steps, decisions, infeasible int64
	fns := map[string]bool{}
	models := map[string]bool{}
	var hinfo []any
	var bounds, outside, stubs []string
	for i, r := range runs {
		paths += r.paths
		asserts += r.asserts
		steps += r.steps
		decisions += r.decisions
		infeasible += r.ended["infeasible"]
		for f := range r.fns {
			fns[f] = true
		}
		for f := range r.models {
			if !strings.HasPrefix(f, rtPkg) {
				models[f] = true
			}
		}
		h := hs[i]
		hinfo = append(hinfo, map[string]any{"harness": h.Pkg + "." + h.Fn, "bounds": h.Bounds, "outside": h.Outside, "paths": r.paths, "paths_by_end": r.ended,
			"assertions_discharged": r.asserts, "symbolic_variables_max": r.inputVars, "decisions_max": r.maxDepth, "reached": r.reached, "wall_s": r.wall.Seconds()})
		bounds = append(bounds, h.Bounds...)
		outside = append(outside, h.Outside...)
		stubs = append(stubs, h.Stubs...)
	}
	var repoFns, otherFns []string
	for f := range fns {
		if strings.Contains(f, "VerifH_") || strings.Contains(f, "verif") {
			continue
		}
		if strings.Contains(f, repoMod) {
			repoFns = append(repoFns, strings.ReplaceAll(f, repoMod+"/", ""))
		} else {
			otherFns = append(otherFns, f)
		}
	}
	sort.Strings(repoFns)
	sort.Strings(otherFns)
	if len(samples) == 0 {
		for _, r := range runs {
			for _, s := range r.samples {
				if len(samples) < 6 {
					samples = append(samples, map[string]any{"harness": r.name, "inputs": s})
				}
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no path completed"})
	}
	cov := map[string]any{
		"explanation": "Symbolic execution of the repository's Go code (go/ssa of the current tree) with an SMT solver deciding every branch and assertion for all values within the stated bounds. states = symbolic paths explored, transitions = symbolic decisions taken, traces_validated_against_impl = explored paths whose solver model was executed natively with the same outcome.",
		"states":      paths, "transitions": decisions, "traces_validated_against_impl": validated, "native_mismatches": mismatched,
		"samples": samples, "exhaustive": exhaustive, "harnesses": hinfo, "bounds": bounds, "outside_bounds": outside,
		"functions_encoded_repo": repoFns, "functions_encoded_other": len(otherFns), "functions_modelled": len(models), "modelled": sortedKeys(models),
		"instructions_executed": steps, "infeasible_paths": infeasible, "assertions_discharged": asserts,
		"solver": map[string]any{"queries": statQueries, "cache_hits": statCached, "sat": statSat, "unsat": statUnsat, "unknown": statUnknown, "errors": statErrors,
			"time_s": float64(statSolveNS) / 1e9, "max_query_s": float64(statMaxNS) / 1e9, "cross_checked_with_cvc5": statCross, "floating_point_queries_cvc5": statFP},
		"load_s": loadT.Seconds(), "incomplete": problems, "known_findings": knownL,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": append([]string{
		"the go/ssa interpreter and the models listed under coverage.modelled agree with the compiled code (sampled paths are re-run natively)",
		"single memory order: goroutines switch at synchronisation operations only"}, stubs...), "wall_s": wall.Seconds(), "violations": reported}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}

var thoroughTier bool
