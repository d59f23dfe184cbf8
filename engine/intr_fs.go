package main

// File system model: one process, files are byte sequences, every mutating
// operation of an armed section can be the point of a crash. It mirrors what
// the native replay does at the system call level (native_fs.go).

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fsFile struct {
	data   []Value
	synced int  // length that survives a power loss
	dirty  bool // changed since the last sync in the armed section
	dir    bool
}

type fsHandle struct {
	path string
	f    *fsFile
	off  int
	app  bool
	rd   bool
	wr   bool
	shut bool
}

type fsModel struct {
	in     *Interp
	files  map[string]*fsFile
	hs     map[*Value]*fsHandle
	tmp    int
	armed  bool
	dead   bool
	fault  bool // operations fail (once) and the process goes on
	failed bool
}

const (
	eNOENT    = 2
	eIO       = 5
	eBADF     = 9
	eEXIST    = 17
	eNOTDIR   = 20
	eISDIR    = 21
	eINVAL    = 22
	eNOTEMPTY = 93
)

func (in *Interp) fs() *fsModel {
	f, _ := in.side["fs"].(*fsModel)
	if f == nil {
		f = &fsModel{in: in, files: map[string]*fsFile{"/": {dir: true}, "/tmp": {dir: true}, "/cwd": {dir: true}}, hs: map[*Value]*fsHandle{}}
		in.side["fs"] = f
	}
	return f
}

func (f *fsModel) clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	return path.Clean(p)
}

func (f *fsModel) mkdirAll(d string) {
	d = f.clean(d)
	for d != "/" {
		if f.files[d] == nil {
			f.files[d] = &fsFile{dir: true}
		}
		d = path.Dir(d)
	}
}

// inputChoice is a recorded choice the native replay reads.
func (in *Interp) inputChoice(name string, n int) int {
	name = in.inputName(name)
	k := in.choose(n, name)
	in.inputs = append(in.inputs, inputRec{Name: name, Kind: "Choose", Vals: []Value{uint64(k)}})
	return k
}

// crash is asked before a mutating operation; true: the process is gone.
func (f *fsModel) crash() bool {
	if f.dead {
		return true
	}
	if !f.armed {
		return false
	}
	if f.fault {
		if !f.failed && f.in.inputChoice("fault", 2) == 1 {
			f.failed = true
			return true
		}
		return false
	}
	if f.in.inputChoice("crash", 2) == 1 {
		f.dead = true
	}
	return f.dead
}

// cut is how much of a write of n bytes is done when the crash hits it.
func fsCut(k, n int) int {
	switch k {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return n / 2
	}
	return n - 1
}

func (f *fsModel) touch(x *fsFile) {
	if f.armed {
		x.dirty = true
	}
}

func (f *fsModel) parent(p string) int {
	d := f.files[path.Dir(p)]
	if d == nil {
		return eNOENT
	}
	if !d.dir {
		return eNOTDIR
	}
	return 0
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREAT  = 0x100 // the values of mips64le, which the code is loaded for
	oEXCL   = 0x400
	oTRUNC  = 0x200
	oAPPEND = 0x8
)

func (f *fsModel) open(name string, flag int) (*fsHandle, int) {
	p := f.clean(name)
	x := f.files[p]
	if x != nil && x.dir && flag&(oWRONLY|oRDWR) != 0 {
		return nil, eISDIR
	}
	if x != nil && flag&oCREAT != 0 && flag&oEXCL != 0 {
		return nil, eEXIST
	}
	if x == nil && flag&oCREAT == 0 {
		return nil, eNOENT
	}
	if x == nil {
		if e := f.parent(p); e != 0 {
			return nil, e
		}
	}
	if flag&(oCREAT|oTRUNC) != 0 && flag&3 != 0 {
		if f.crash() {
			return nil, eIO
		}
	} else if f.dead {
		return nil, eIO
	}
	if x == nil {
		x = &fsFile{}
		f.files[p] = x
		f.touch(x)
	} else if flag&oTRUNC != 0 && flag&3 != 0 {
		x.data, x.synced = nil, 0
		f.touch(x)
	}
	return &fsHandle{path: name, f: x, app: flag&oAPPEND != 0, rd: flag&oWRONLY == 0, wr: flag&3 != 0}, 0
}

func (f *fsModel) put(x *fsFile, off int, b []Value) {
	for len(x.data) < off {
		x.data = append(x.data, uint64(0))
	}
	d := append([]Value(nil), x.data[:off]...)
	d = append(d, b...)
	if off+len(b) < len(x.data) {
		d = append(d, x.data[off+len(b):]...)
	}
	x.data = d
	if off < x.synced {
		x.synced = off
	}
	f.touch(x)
}

func (f *fsModel) write(h *fsHandle, b []Value) (int, int) {
	if h == nil || h.shut || !h.wr {
		return 0, eBADF
	}
	if len(b) == 0 {
		return 0, 0
	}
	if h.app {
		h.off = len(h.f.data)
	}
	was := f.dead
	if f.crash() {
		if !was {
			n := fsCut(f.in.inputChoice("cut", 4), len(b))
			if n > 0 {
				f.put(h.f, h.off, b[:n])
				h.off += n
			}
		}
		return 0, eIO
	}
	f.put(h.f, h.off, b)
	h.off += len(b)
	return len(b), 0
}

func (f *fsModel) sync(h *fsHandle) int {
	if h == nil || h.shut {
		return eBADF
	}
	if f.crash() {
		return eIO
	}
	h.f.synced, h.f.dirty = len(h.f.data), false
	return 0
}

func (f *fsModel) rename(from, to string) int {
	a, b := f.clean(from), f.clean(to)
	x := f.files[a]
	if x == nil {
		return eNOENT
	}
	if x.dir {
		f.in.unsupported("rename of a directory")
	}
	if y := f.files[b]; y != nil && y.dir {
		return eISDIR
	}
	if e := f.parent(b); e != 0 {
		return e
	}
	if f.crash() {
		return eIO
	}
	if a != b {
		f.files[b] = x
		delete(f.files, a)
	}
	return 0
}

func (f *fsModel) kids(p string) []string {
	var l []string
	for k := range f.files {
		if k != p && path.Dir(k) == p {
			l = append(l, path.Base(k))
		}
	}
	sort.Strings(l)
	return l
}

func (f *fsModel) remove(name string) int {
	p := f.clean(name)
	x := f.files[p]
	if x == nil {
		return eNOENT
	}
	if x.dir && len(f.kids(p)) > 0 {
		return eNOTEMPTY
	}
	if f.crash() {
		return eIO
	}
	delete(f.files, p)
	return 0
}

// begin arms the crash points; everything there is durable.
func (f *fsModel) begin() {
	for _, x := range f.files {
		x.dirty, x.synced = false, len(x.data)
	}
	f.armed, f.dead, f.fault, f.failed = true, false, false, false
}

// end lets a power loss take what was not synced.
func (f *fsModel) end() bool {
	if f.fault {
		f.armed = false
		return f.failed
	}
	if f.armed && !f.dead && f.in.inputChoice("crash", 2) == 1 {
		f.dead = true
	}
	if f.dead {
		dirty := false
		for _, x := range f.files {
			dirty = dirty || x.dirty
		}
		if dirty && f.in.inputChoice("lost", 2) == 1 {
			for _, x := range f.files {
				if x.dirty && len(x.data) > x.synced {
					x.data = x.data[:x.synced]
				}
			}
		}
	}
	d := f.dead
	f.armed, f.dead = false, false
	return d
}

func fsPkg(fn *ssa.Function) *types.Package {
	p := fn.Pkg.Pkg
	if p.Path() == "os" {
		return p
	}
	for _, q := range p.Imports() {
		if q.Path() == "os" {
			return q
		}
	}
	return nil
}

func (in *Interp) osPkg() *types.Package { return in.eng.pkgs["os"].Pkg }

func (in *Interp) errno(e int) Iface {
	t := in.eng.pkgs["syscall"].Pkg.Scope().Lookup("Errno").Type()
	return Iface{t: t, v: uint64(e)}
}

func (in *Interp) pathError(op, p string, e int) Value {
	if e == 0 {
		return Iface{}
	}
	t := in.eng.pkgs["io/fs"].Pkg.Scope().Lookup("PathError").Type()
	return Iface{t: types.NewPointer(t), v: in.newStruct(t, map[string]Value{"Op": op, "Path": p, "Err": in.errno(e)})}
}

func (in *Interp) linkError(op, a, b string, e int) Value {
	if e == 0 {
		return Iface{}
	}
	t := in.osPkg().Scope().Lookup("LinkError").Type()
	return Iface{t: types.NewPointer(t), v: in.newStruct(t, map[string]Value{"Op": op, "Old": a, "New": b, "Err": in.errno(e)})}
}

func (in *Interp) newFile(h *fsHandle) *Value {
	p := new(Value)
	*p = zero(in.osPkg().Scope().Lookup("File").Type())
	in.fs().hs[p] = h
	return p
}

func (in *Interp) fsHandle(v Value) *fsHandle {
	p, _ := v.(*Value)
	if p == nil {
		return nil
	}
	return in.fs().hs[p]
}

func (in *Interp) fileInfo(name string, x *fsFile) Value {
	t := in.osPkg().Scope().Lookup("fileStat").Type()
	mode := uint64(0o644)
	if x.dir {
		mode = 1<<31 | 0o755
	}
	return Iface{t: types.NewPointer(t), v: in.newStruct(t, map[string]Value{"name": path.Base(name), "size": uint64(len(x.data)), "mode": mode})}
}

func fsIntrinsics(reg regFn) {
	rt := rtPkg + "."
	reg(rt+"crashBegin", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { in.fs().begin(); return nil }))
	reg(rt+"faultBegin", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.fs().begin()
		in.fs().fault = true
		return nil
	}))
	reg(rt+"crashEnd", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return in.fs().end() }))
	// Files lists what is below a directory
	reg(rt+"Files", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		d := in.fs().clean(in.str(a[0]))
		var l []string
		for k, x := range in.fs().files {
			if !x.dir && strings.HasPrefix(k, d+"/") {
				l = append(l, k[len(d)+1:])
			}
		}
		sort.Strings(l)
		r := SliceV{}
		for _, x := range l {
			r.s = append(r.s, x)
		}
		return r
	}))
	tuple := func(x Value, err Value) Value { return Tuple{x, err} }
	nilFile := (*Value)(nil)
	stat := func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n := in.str(a[0])
		if len(n) > 4096 {
			return tuple(Iface{}, in.pathError("stat", n, 36))
		}
		for _, c := range strings.Split(n, "/") {
			if len(c) > 255 {
				return tuple(Iface{}, in.pathError("stat", n, 36))
			}
		}
		x := in.fs().files[in.fs().clean(n)]
		if x == nil {
			return tuple(Iface{}, in.pathError("stat", n, eNOENT))
		}
		return tuple(in.fileInfo(n, x), Iface{})
	}
	reg("os.Stat", pure(stat))
	reg("os.Lstat", pure(stat))
	mkdirAll := func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		f := in.fs()
		d := f.clean(in.str(a[0]))
		var todo []string
		for x := d; ; x = path.Dir(x) {
			if y := f.files[x]; y != nil {
				if !y.dir {
					return in.pathError("mkdir", x, eNOTDIR)
				}
				break
			}
			todo = append([]string{x}, todo...)
		}
		for _, x := range todo {
			if f.crash() {
				return in.pathError("mkdir", x, eIO)
			}
			f.files[x] = &fsFile{dir: true}
		}
		return Iface{}
	}
	reg("os.MkdirAll", pure(mkdirAll))
	reg("os.Mkdir", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		f := in.fs()
		n := in.str(a[0])
		d := f.clean(n)
		if f.files[d] != nil {
			return in.pathError("mkdir", n, eEXIST)
		}
		if e := f.parent(d); e != 0 {
			return in.pathError("mkdir", n, e)
		}
		if f.crash() {
			return in.pathError("mkdir", n, eIO)
		}
		f.files[d] = &fsFile{dir: true}
		return Iface{}
	}))
	reg("os.ReadFile", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n := in.str(a[0])
		x := in.fs().files[in.fs().clean(n)]
		if x == nil {
			return tuple(SliceV{}, in.pathError("open", n, eNOENT))
		}
		if x.dir {
			return tuple(SliceV{}, in.pathError("read", n, eISDIR))
		}
		return tuple(SliceV{s: append([]Value{}, x.data...)}, Iface{})
	}))
	reg("os.WriteFile", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n := in.str(a[0])
		f := in.fs()
		h, e := f.open(n, oWRONLY|oCREAT|oTRUNC)
		if e != 0 {
			return in.pathError("open", n, e)
		}
		_, e = f.write(h, in.sliceBytes(a[1]))
		return in.pathError("write", n, e)
	}))
	open := func(in *Interp, n string, flag int) Value {
		h, e := in.fs().open(n, flag)
		if e != 0 {
			return tuple(nilFile, in.pathError("open", n, e))
		}
		return tuple(in.newFile(h), Iface{})
	}
	reg("os.OpenFile", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return open(in, in.str(a[0]), int(in.concretize(a[1])))
	}))
	reg("os.Open", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return open(in, in.str(a[0]), 0) }))
	reg("os.Create", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return open(in, in.str(a[0]), oRDWR|oCREAT|oTRUNC)
	}))
	temp := func(in *Interp, dir, pat string) string {
		if dir == "" {
			dir = "/tmp"
		}
		in.fs().tmp++
		r := fmt.Sprintf("%09d", in.fs().tmp)
		if i := strings.LastIndex(pat, "*"); i >= 0 {
			pat = pat[:i] + r + pat[i+1:]
		} else {
			pat += r
		}
		return path.Join(dir, pat)
	}
	reg("os.TempDir", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return "/tmp" }))
	reg("os.CreateTemp", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		return open(in, temp(in, in.str(a[0]), in.str(a[1])), oRDWR|oCREAT|oEXCL)
	}))
	reg("os.MkdirTemp", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		d := temp(in, in.str(a[0]), in.str(a[1]))
		if in.fs().crash() {
			return tuple("", in.pathError("mkdir", d, eIO))
		}
		in.fs().files[in.fs().clean(d)] = &fsFile{dir: true}
		return tuple(d, Iface{})
	}))
	reg("os.Rename", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		x, y := in.str(a[0]), in.str(a[1])
		return in.linkError("rename", x, y, in.fs().rename(x, y))
	}))
	reg("os.Remove", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		x := in.str(a[0])
		return in.pathError("remove", x, in.fs().remove(x))
	}))
	reg("os.RemoveAll", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		f := in.fs()
		p := f.clean(in.str(a[0]))
		var l []string
		for k := range f.files {
			if k == p || strings.HasPrefix(k, p+"/") {
				l = append(l, k)
			}
		}
		sort.Sort(sort.Reverse(sort.StringSlice(l)))
		for _, k := range l {
			if e := f.remove(k); e != 0 {
				return in.pathError("unlinkat", k, e)
			}
		}
		return Iface{}
	}))
	reg("os.Truncate", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n := in.str(a[0])
		x := in.fs().files[in.fs().clean(n)]
		if x == nil {
			return in.pathError("truncate", n, eNOENT)
		}
		return in.pathError("truncate", n, in.fs().truncate(x, int(in.concretize(a[1]))))
	}))
	chmod := func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		n := in.str(a[0])
		if in.fs().files[in.fs().clean(n)] == nil {
			return in.pathError("chmod", n, eNOENT)
		}
		return Iface{}
	}
	reg("os.Chmod", pure(chmod))
	readDir := func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		in.unsupported("reading a directory")
		return nil
	}
	for _, n := range []string{"os.ReadDir", "io/ioutil.ReadDir", "(*os.File).ReadDir", "(*os.File).Readdir", "(*os.File).Readdirnames", "os.Link", "os.Symlink"} {
		reg(n, pure(readDir))
	}
	for _, x := range []struct {
		n string
		e []int
	}{{"IsNotExist", []int{eNOENT}}, {"IsExist", []int{eEXIST, eNOTEMPTY}}, {"IsPermission", []int{1, 13}}} {
		x := x
		reg("os."+x.n, pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
			err, _ := a[0].(Iface)
			if err.t == nil {
				return false
			}
			if err.t.String() == "*io/fs.PathError" || err.t.String() == "*os.LinkError" || err.t.String() == "*os.SyscallError" {
				st := (*in.ptr(err.v)).(Struct)
				err, _ = st[len(st)-1].(Iface)
			}
			if err.t != nil && err.t.String() == "syscall.Errno" {
				for _, e := range x.e {
					if uint64(e) == err.v {
						return true
					}
				}
				return false
			}
			gl, _ := in.eng.pkgs["internal/oserror"].Members["Err"+strings.TrimPrefix(x.n, "Is")].(*ssa.Global)
			if gl == nil {
				return false
			}
			w, _ := (*in.global(gl)).(Iface)
			return w.t != nil && err.t != nil && w.v == err.v
		}))
	}
	fm := "(*os.File)."
	reg(fm+"Name", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		if h := in.fsHandle(a[0]); h != nil {
			return h.path
		}
		in.nilDeref()
		return nil
	}))
	wr := func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		h := in.fsHandle(a[0])
		var b []Value
		if s, ok := a[1].(SliceV); ok {
			b = in.sliceBytes(s)
		} else {
			b = strBytes(a[1])
		}
		if h == nil {
			// standard streams
			return tuple(uint64(len(b)), Iface{})
		}
		n, e := in.fs().write(h, append([]Value(nil), b...))
		return tuple(uint64(n), in.pathError("write", h.path, e))
	}
	reg(fm+"Write", pure(wr))
	reg(fm+"WriteString", pure(wr))
	reg(fm+"WriteAt", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		h := in.fsHandle(a[0])
		old := h.off
		h.off = int(in.concretize(a[2]))
		n, e := in.fs().write(h, append([]Value(nil), in.sliceBytes(a[1])...))
		h.off = old
		return tuple(uint64(n), in.pathError("write", h.path, e))
	}))
	reg(fm+"Read", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		h := in.fsHandle(a[0])
		if h == nil || h.shut || !h.rd {
			return tuple(uint64(0), in.pathError("read", "", eBADF))
		}
		b := a[1].(SliceV).s
		if len(b) == 0 {
			return tuple(uint64(0), Iface{})
		}
		if h.off >= len(h.f.data) {
			return tuple(uint64(0), *in.global(in.eng.pkgs["io"].Members["EOF"].(*ssa.Global)))
		}
		n := copy(b, h.f.data[h.off:])
		h.off += n
		return tuple(uint64(n), Iface{})
	}))
	reg(fm+"Sync", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		h := in.fsHandle(a[0])
		if h == nil {
			return Iface{}
		}
		if h.f.dir {
			return Iface{}
		}
		return in.pathError("sync", h.path, in.fs().sync(h))
	}))
	reg(fm+"Close", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		h := in.fsHandle(a[0])
		if h == nil {
			return in.mkError("invalid argument")
		}
		if h.shut {
			return in.mkError("close " + h.path + ": file already closed")
		}
		h.shut = true
		return Iface{}
	}))
	reg(fm+"Chmod", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value { return Iface{} }))
	reg(fm+"Stat", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		h := in.fsHandle(a[0])
		return tuple(in.fileInfo(h.path, h.f), Iface{})
	}))
	reg(fm+"Truncate", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		h := in.fsHandle(a[0])
		return in.pathError("truncate", h.path, in.fs().truncate(h.f, int(in.concretize(a[1]))))
	}))
	reg(fm+"Seek", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		h := in.fsHandle(a[0])
		o := int(int64(in.concretize(a[1])))
		switch in.concretize(a[2]) {
		case 1:
			o += h.off
		case 2:
			o += len(h.f.data)
		}
		if o < 0 {
			return tuple(uint64(0), in.pathError("seek", h.path, eINVAL))
		}
		h.off = o
		return tuple(uint64(o), Iface{})
	}))
}

func (f *fsModel) truncate(x *fsFile, n int) int {
	if f.crash() {
		return eIO
	}
	for len(x.data) < n {
		x.data = append(x.data, uint64(0))
	}
	x.data = append([]Value(nil), x.data[:n]...)
	if n < x.synced {
		x.synced = n
	}
	f.touch(x)
	return 0
}
