package main

// One persistent z3 process per worker. Queries are independent
// (push/assert/check/pop); constraint-independence slicing and a shared cache
// keep their number and size down.

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type satRes int

const (
	unsat satRes = iota
	sat
	unknown
)

type qres struct {
	r satRes
	m map[string]uint64
}

var (
	qcache      sync.Map // [32]byte -> qres
	statQueries int64
	statCached  int64
	statSat     int64
	statUnsat   int64
	statUnknown int64
	statErrors  int64
	statSolveNS int64
	statMaxNS   int64
	solverBin   = "z3-new"
	queryTOms   = 60000
	statFP      int64
	statCross   int64 // queries re-checked by the second solver
	crossEvery  int64 = 0
)

type Solver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

func (s *Solver) start() error {
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	_, err = io.WriteString(s.in, fmt.Sprintf("(set-option :timeout %d)\n(set-option :global-declarations false)\n", queryTOms))
	return err
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimRight(l, "\r\n"), err
}

// query decides the conjunction of cs. cs must already be sliced.
func (s *Solver) query(ctx *Ctx, cs []*Term) qres {
	if len(cs) == 0 {
		return qres{r: sat, m: map[string]uint64{}}
	}
	p := &smtPrinter{done: map[*Term]string{}}
	var asserts []string
	for _, c := range cs {
		asserts = append(asserts, "(assert "+p.emit(c)+")\n")
	}
	var q strings.Builder
	for _, d := range p.decls {
		q.WriteString("(declare-const |" + d.name + "| " + sortName(d.w) + ")\n")
	}
	q.WriteString(p.sb.String())
	for _, a := range asserts {
		q.WriteString(a)
	}
	text := q.String()
	key := sha256.Sum256([]byte(text))
	if v, ok := qcache.Load(key); ok {
		atomic.AddInt64(&statCached, 1)
		return v.(qres)
	}
	t0 := time.Now()
	var r qres
	var err error
	if strings.Contains(text, "(fp.") {
		r = askFP(text, p.decls)
	} else {
		r, err = s.ask(text, p.decls)
	}
	if err != nil { // restart once
		s.Close()
		r, err = s.ask(text, p.decls)
		if err != nil {
			s.Close()
			atomic.AddInt64(&statErrors, 1)
			r = qres{r: unknown}
		}
	}
	d := time.Since(t0).Nanoseconds()
	n := atomic.AddInt64(&statQueries, 1)
	atomic.AddInt64(&statSolveNS, d)
	for {
		o := atomic.LoadInt64(&statMaxNS)
		if d <= o || atomic.CompareAndSwapInt64(&statMaxNS, o, d) {
			break
		}
	}
	switch r.r {
	case sat:
		atomic.AddInt64(&statSat, 1)
		// the model is re-evaluated: a wrong model is treated as inconclusive
		memo := map[*Term]uint64{}
		for _, c := range cs {
			if c.eval(r.m, memo) != 1 {
				atomic.AddInt64(&statErrors, 1)
				r = qres{r: unknown}
				break
			}
		}
	case unsat:
		atomic.AddInt64(&statUnsat, 1)
		if crossEvery > 0 && n%crossEvery == 0 {
			crossCheck(text)
		}
	default:
		atomic.AddInt64(&statUnknown, 1)
	}
	if r.r != unknown {
		qcache.Store(key, r)
	}
	return r
}

// askFP decides a floating-point query with cvc5 in a process of its own.
func askFP(text string, decls []*Term) qres {
	atomic.AddInt64(&statFP, 1)
	c := exec.Command("cvc5", "--lang=smt2", "--produce-models", "--tlimit=400000")
	var names strings.Builder
	for _, d := range decls {
		names.WriteString(" |" + d.name + "|")
	}
	c.Stdin = strings.NewReader("(set-logic ALL)\n" + text + "(check-sat)\n(get-value (" + names.String() + "))\n")
	o, _ := c.Output()
	out := string(o)
	switch {
	case strings.HasPrefix(out, "unsat"):
		return qres{r: unsat}
	case strings.HasPrefix(out, "sat\n"):
		r := qres{r: sat, m: map[string]uint64{}}
		if err := parseValues(out[4:], r.m); err == nil {
			return r
		}
	}
	return qres{r: unknown}
}

var crossBad sync.Map

// crossCheck asks the second solver about an unsat answer.
func crossCheck(text string) {
	c := exec.Command("cvc5", "--lang=smt2", "--tlimit=20000")
	c.Stdin = strings.NewReader("(set-logic ALL)\n" + text + "(check-sat)\n")
	o, _ := c.Output()
	l := strings.TrimSpace(string(o))
	atomic.AddInt64(&statCross, 1)
	if strings.HasPrefix(l, "sat") {
		crossBad.Store(text, true)
	}
}

func (s *Solver) ask(text string, decls []*Term) (qres, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return qres{r: unknown}, err
		}
	}
	s.n++
	if s.n%20000 == 0 {
		s.Close()
		if err := s.start(); err != nil {
			return qres{r: unknown}, err
		}
	}
	if _, err := io.WriteString(s.in, "(push)\n"+text+"(check-sat)\n"); err != nil {
		return qres{r: unknown}, err
	}
	l, err := s.readLine()
	if err != nil {
		return qres{r: unknown}, err
	}
	for strings.HasPrefix(l, "(error") || l == "" {
		atomic.AddInt64(&statErrors, 1)
		return qres{r: unknown}, fmt.Errorf("solver: %s", l)
	}
	var res qres
	switch l {
	case "unsat":
		res.r = unsat
	case "sat":
		res.r = sat
		res.m = map[string]uint64{}
		if len(decls) > 0 {
			var names strings.Builder
			for _, d := range decls {
				names.WriteString(" |" + d.name + "|")
			}
			if _, err := io.WriteString(s.in, "(get-value ("+names.String()+"))\n(echo \"EOM\")\n"); err != nil {
				return res, err
			}
			var sb strings.Builder
			for {
				l, err := s.readLine()
				if err != nil {
					return res, err
				}
				if l == "EOM" || l == "\"EOM\"" {
					break
				}
				sb.WriteString(l)
				sb.WriteByte('\n')
			}
			if err := parseValues(sb.String(), res.m); err != nil {
				return res, err
			}
		}
	default:
		res.r = unknown
	}
	if _, err := io.WriteString(s.in, "(pop)\n"); err != nil {
		return res, err
	}
	return res, nil
}

// parseValues reads ((|a#0| #x01) (|b#0| true) ...)
func parseValues(txt string, m map[string]uint64) error {
	i := 0
	skip := func() {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t') {
			i++
		}
	}
	skip()
	if i >= len(txt) || txt[i] != '(' {
		return fmt.Errorf("bad model %q", txt)
	}
	i++
	for {
		skip()
		if i >= len(txt) {
			return fmt.Errorf("bad model end")
		}
		if txt[i] == ')' {
			return nil
		}
		if txt[i] != '(' {
			return fmt.Errorf("bad model at %d: %q", i, txt)
		}
		i++
		skip()
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for txt[j] != ' ' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		skip()
		// value: balanced
		j := i
		depth := 0
		for {
			if txt[j] == '(' {
				depth++
			} else if txt[j] == ')' {
				if depth == 0 {
					break
				}
				depth--
			}
			j++
		}
		v := strings.TrimSpace(txt[i:j])
		i = j + 1
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			u, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return err
			}
			m[name] = u
		case strings.HasPrefix(v, "#b"):
			u, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return err
			}
			m[name] = u
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(strings.Trim(v, "()"))
			b, ok := new(big.Int).SetString(f[1][2:], 10)
			if !ok {
				return fmt.Errorf("bad bv %q", v)
			}
			m[name] = b.Uint64()
		default:
			return fmt.Errorf("unsupported model value %q", v)
		}
	}
}

// slice returns the constraints of pc connected to extra through variables.
func sliceFor(pc []*Term, extra *Term, nvars int) []*Term {
	if len(pc) == 0 {
		return []*Term{extra}
	}
	in := make([]bool, nvars)
	for _, v := range extra.vars.ids {
		in[v] = true
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars.ids {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, v := range c.vars.ids {
					in[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, c := range pc {
		if used[i] {
			out = append(out, c)
		}
	}
	out = append(out, extra)
	// deterministic order: creation order within the path
	sort.SliceStable(out[:len(out)-1], func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
