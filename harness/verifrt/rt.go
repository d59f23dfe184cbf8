// Package verifrt is the harness interface. Under the symbolic engine every
// function here is replaced by the engine; this file is the native replay
// implementation, which reads the solver's values from VERIF_REPLAY.
package verifrt

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	inputs map[string][]uint64
	counts = map[string]int{}
	base   int
)

func load() {
	if inputs != nil {
		return
	}
	inputs = map[string][]uint64{}
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		return
	}
	b, err := ioutil.ReadFile(f)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &inputs); err != nil {
		panic(err)
	}
}

func get(name string, n int) []uint64 {
	mu.Lock()
	defer mu.Unlock()
	load()
	k := fmt.Sprintf("%s#%d", name, counts[name])
	counts[name]++
	v := inputs[k]
	for len(v) < n {
		v = append(v, 0)
	}
	return v
}

// settle waits for goroutines of package initialisers that work on their own and then end.
func settle() {
	b := make([]byte, 1<<18)
	for i := 0; i < 600; i++ {
		d := string(b[:runtime.Stack(b, true)])
		if !strings.Contains(d, " [runnable") && strings.Count(d, " [running") == 1 {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// Run executes a harness natively.
func Run(f func()) {
	settle()
	base = runtime.NumGoroutine()
	f()
	fmt.Println("VERIF-END ok")
}

func Bool(name string) bool     { return get(name, 1)[0] != 0 }
func Byte(name string) byte     { return byte(get(name, 1)[0]) }
func Int(name string) int       { return int(get(name, 1)[0]) }
func Int64(name string) int64   { return int64(get(name, 1)[0]) }
func Uint64(name string) uint64 { return get(name, 1)[0] }
func Uint32(name string) uint32 { return uint32(get(name, 1)[0]) }

// Range is a symbolic integer with lo <= v <= hi.
func Range(name string, lo, hi int) int {
	v := int(get(name, 1)[0])
	Assume(v >= lo && v <= hi)
	return v
}

// Choose is a concrete choice in [0,n), explored exhaustively.
func Choose(name string, n int) int { return int(get(name, 1)[0]) }

func Bytes(name string, n int) []byte {
	v := get(name, n)
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(v[i])
	}
	return r
}

func Str(name string, n int) string { return string(Bytes(name, n)) }

func Assume(c bool) {
	if !c {
		fmt.Println("VERIF-ASSUME")
		os.Exit(0)
	}
}

func Assert(c bool, label string) {
	if !c {
		fmt.Printf("VERIF-ASSERT %s\n", label)
		os.Exit(3)
	}
}

func Reach(label string) {}

// Note records text shown with a counterexample.
func Note(s string) { fmt.Println("VERIF-NOTE " + s) }

// Quiesce waits until every other goroutine is blocked or done.
func Quiesce() { time.Sleep(60 * time.Millisecond) }

// Advance lets timers up to d milliseconds ahead fire.
func Advance(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond); Quiesce() }

// MapOrders explores every map iteration order from here on.
func MapOrders(on bool) {}

// MapDeviations explores map iteration orders that differ from insertion order at up to n steps.
func MapDeviations(n int) {}

// MapReverse iterates maps from the latest entry to the earliest from here on.
func MapReverse() {}

// Sched explores scheduling choices, with up to preempt preemptions.
func Sched(preempt int) {}

// NoSched returns to the deterministic schedule.
func NoSched() {}

// TimersAny lets up to n timers fire while goroutines are runnable.
func TimersAny(n int) {}

// Goroutines counts live goroutines besides the harness.
func Goroutines() int {
	for i := 0; i < 40; i++ {
		if runtime.NumGoroutine() <= base {
			return 0
		}
		time.Sleep(5 * time.Millisecond)
	}
	return runtime.NumGoroutine() - base
}

// Symbolic reports whether the engine runs the harness.
func Symbolic() bool { return false }

// RawIsMalformed makes symbolic raw documents undecodable (engine only).
func RawIsMalformed() {}

// Thorough reports the tier, for wider bounds.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// And, Or and Implies do not fork on their operands.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

// TempDir is a scratch directory for the harness.
func TempDir() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	p, err := ioutil.TempDir(d, "h")
	if err != nil {
		panic(err)
	}
	return p
}

// Races reports unsynchronised accesses to memory cells too (engine only).
func Races() {}

// Crash runs f and tells whether the process died on the way: every operation
// of f that changes files is a point where everything after it (and any part
// of it) may be missing. Code running after the death changes nothing.
func Crash(f func()) bool {
	crashBegin()
	f()
	return crashEnd()
}

// Fault runs f; one of its changes to files may fail, the process goes on. It tells whether one failed.
func Fault(f func()) bool {
	faultBegin()
	f()
	return crashEnd()
}

// Files lists the files below a directory.
func Files(dir string) []string {
	var l []string
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			if r, err := filepath.Rel(dir, p); err == nil {
				l = append(l, r)
			}
		}
		return nil
	})
	sort.Strings(l)
	return l
}
