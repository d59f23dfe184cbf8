//go:build verifcrash
// +build verifcrash

package verifrt

import (
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// The replay build replaces a few functions of package syscall by wrappers that ask syscall.VerifFS.

type crashFile struct {
	synced int64
	dirty  bool
}

var (
	crashDead          bool
	faultMode, faulted bool
	crashFiles         map[string]*crashFile // by current path
	crashFds           map[int]string
)

func crashPath(p string) string {
	q, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	return q
}

// crashHook answers -1 to go on, or how many bytes are written before the operation fails.
func crashHook(op string, fd int, a, b string, n int) int {
	scratch := os.Getenv("VERIF_SCRATCH")
	in := func(p string) bool { return strings.HasPrefix(crashPath(p), scratch+"/") }
	cut := 0
	switch op {
	case "open":
		if !in(a) || n&3 == 0 && !crashDead || n&3 != 0 && n&(syscall.O_CREAT|syscall.O_TRUNC) == 0 && !crashDead {
			return -1
		}
	case "opened":
		if !in(a) || n&3 == 0 {
			return -1
		}
		p := crashPath(a)
		crashFds[fd] = p
		if n&(syscall.O_TRUNC) != 0 || crashFiles[p] == nil {
			f := crashFiles[p]
			st := int64(0)
			if s, err := os.Lstat(p); err == nil {
				st = s.Size()
			}
			if f == nil {
				f = &crashFile{synced: st}
				crashFiles[p] = f
			}
			if n&syscall.O_TRUNC != 0 {
				f.synced, f.dirty = 0, true
			}
		}
		return -1
	case "write", "fsync", "ftruncate":
		if crashFds[fd] == "" {
			return -1
		}
	case "wrote":
		if f := crashFiles[crashFds[fd]]; f != nil {
			f.dirty = true
		}
		return -1
	case "synced":
		if f := crashFiles[crashFds[fd]]; f != nil {
			if s, err := os.Lstat(crashFds[fd]); err == nil {
				f.synced = s.Size()
			}
			f.dirty = false
		}
		return -1
	case "renamed":
		p, q := crashPath(a), crashPath(b)
		for fd, x := range crashFds {
			if x == p {
				crashFds[fd] = q
			}
		}
		delete(crashFiles, q)
		if f := crashFiles[p]; f != nil {
			crashFiles[q] = f
			delete(crashFiles, p)
		}
		return -1
	case "rename", "unlink", "mkdir", "truncate":
		if !in(a) {
			return -1
		}
	}
	if op == "write" && n == 0 {
		return -1
	}
	if crashDead {
		return 0
	}
	if faultMode {
		if faulted || get("fault", 1)[0] == 0 {
			return -1
		}
		faulted = true
	} else {
		if get("crash", 1)[0] == 0 {
			return -1
		}
		crashDead = true
	}
	if op == "write" {
		switch get("cut", 1)[0] {
		case 0:
		case 1:
			cut = 1
		case 2:
			cut = n / 2
		default:
			cut = n - 1
		}
	}
	return cut
}

func crashBegin() {
	mu.Lock()
	load()
	mu.Unlock()
	crashDead, faultMode, faulted = false, false, false
	crashFiles, crashFds = map[string]*crashFile{}, map[int]string{}
	syscall.VerifFS = crashHook
}

func crashEnd() bool {
	syscall.VerifFS = nil
	if faultMode {
		return faulted
	}
	if !crashDead && get("crash", 1)[0] == 1 {
		crashDead = true
	}
	if crashDead {
		dirty := false
		for _, f := range crashFiles {
			dirty = dirty || f.dirty
		}
		if dirty && get("lost", 1)[0] == 1 {
			for p, f := range crashFiles {
				if f.dirty {
					if s, err := os.Lstat(p); err == nil && s.Size() > f.synced {
						os.Truncate(p, f.synced)
					}
				}
			}
		}
	}
	return crashDead
}

func faultBegin() {
	crashBegin()
	faultMode = true
}
