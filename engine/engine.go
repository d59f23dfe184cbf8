package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "gitlab.com/thorchain/tss/go-tss"
const rtPkg = repoMod + "/verifrt"

type intrinsicFn func(in *Interp, g *Gor, args []Value, fn *ssa.Function) (Value, status)

type Engine struct {
	prog      *ssa.Program
	repo      string
	verif     string
	harness   string
	dropped   map[string]bool
	modfile   string
	maxSteps  int64
	rtErrType types.Type
	errStrT   types.Type // *errors.errorString
	wrapErrT  types.Type // *fmt.wrapError
	wrapErrsT types.Type // *fmt.wrapErrors

	intr      map[string]intrinsicFn
	intrCache sync.Map
	methCache sync.Map
	initCache sync.Map
	implCache sync.Map
	builtPk   sync.Map
	raceRel   sync.Map
	run       *Run
	known     map[string]bool
	loadMu    sync.Mutex
	pkgs      map[string]*ssa.Package
}

type methKey struct {
	t    types.Type
	name string
}
type implKey struct {
	t types.Type
	i *types.Interface
}

// overlayFiles maps virtual files under the repository to files of /verif.
func overlayFiles(repo, verif string) map[string]string {
	m := map[string]string{}
	root := filepath.Join(verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		m[filepath.Join(repo, rel)] = p
		return nil
	})
	return m
}

func loadEngine(repo, verif, dir string, patterns []string, only map[string]bool) (*Engine, error) {
	ov := map[string][]byte{}
	for dst, src := range overlayFiles(repo, verif) {
		if !useHarnessFile(src, only) {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	env := append(os.Environ(), "CGO_ENABLED=0", "GOARCH=mips64le", "GOFLAGS=-mod=mod", "GOPROXY=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: env, Overlay: ov,
		BuildFlags: []string{"-tags=purego,math_big_pure_go,verifsym"}}
	modfile := ""
	if mods := neededHooks(repo, verif, only); len(mods) > 0 {
		var err error
		if modfile, err = hookModules(repo, dir, mods); err != nil {
			return nil, err
		}
		cfg.BuildFlags = append(cfg.BuildFlags, "-modfile="+modfile)
	}
	var pk []*packages.Package
	dropped := map[string]bool{}
	for try := 0; ; try++ {
		var err error
		if pk, err = packages.Load(cfg, patterns...); err != nil {
			return nil, err
		}
		var errs []string
		byFile := map[string][]int{}
		packages.Visit(pk, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				fs := strings.Split(e.Pos, ":")
				if _, ok := ov[fs[0]]; ok && len(fs) > 1 {
					if l, err := strconv.Atoi(fs[1]); err == nil {
						byFile[fs[0]] = append(byFile[fs[0]], l)
					}
				}
			}
		})
		if len(errs) == 0 {
			break
		}
		if len(byFile) == 0 || try > 15 {
			if len(errs) > 10 {
				errs = errs[:10]
			}
			return nil, fmt.Errorf("cannot load the code under analysis:\n%s", strings.Join(errs, "\n"))
		}
		// the current tree names or shapes something differently: leave out what does not fit it
		progress := false
		for f, lines := range byFile {
			nb, names := pruneDecls(ov[f], lines)
			for _, n := range names {
				dropped[n] = true
			}
			if !bytes.Equal(nb, ov[f]) {
				progress = true
			}
			ov[f] = nb
			np := filepath.Join(dir, "pruned", strings.ReplaceAll(strings.TrimPrefix(f, repo), "/", "_"))
			os.MkdirAll(filepath.Dir(np), 0o755)
			os.WriteFile(np, nb, 0o644)
			prunedFiles[f] = np
		}
		if !progress {
			return nil, fmt.Errorf("cannot load the code under analysis:\n%s", strings.Join(errs, "\n"))
		}
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	e := &Engine{dropped: dropped, modfile: modfile, prog: prog, repo: repo, verif: verif, maxSteps: 5_000_000, intr: map[string]intrinsicFn{}, known: map[string]bool{}, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	if p := e.pkgs["runtime"]; p != nil {
		e.rtErrType = p.Pkg.Scope().Lookup("errorString").Type()
	} else {
		e.rtErrType = types.Typ[types.String]
	}
	if p := e.pkgs["errors"]; p != nil {
		e.errStrT = types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
	}
	if p := e.pkgs["fmt"]; p != nil {
		e.wrapErrT = types.NewPointer(p.Pkg.Scope().Lookup("wrapError").Type())
		e.wrapErrsT = types.NewPointer(p.Pkg.Scope().Lookup("wrapErrors").Type())
	}
	registerIntrinsics(e)
	return e, nil
}

// prunedFiles maps an overlay target to the harness file without the
// declarations that do not compile against the current tree.
var prunedFiles = map[string]string{}

// pruneDecls removes the top-level declarations (or import specs) at the lines.
func pruneDecls(src []byte, lines []int) ([]byte, []string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return src, nil
	}
	out := append([]byte{}, src...)
	var names []string
	blank := func(a, b token.Pos) {
		for i := fset.Position(a).Offset; i < fset.Position(b).Offset && i < len(out); i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	hit := func(n ast.Node) bool {
		for _, l := range lines {
			if fset.Position(n.Pos()).Line <= l && l <= fset.Position(n.End()).Line {
				return true
			}
		}
		return false
	}
	for _, d := range f.Decls {
		if !hit(d) {
			continue
		}
		if g, ok := d.(*ast.GenDecl); ok && g.Lparen.IsValid() {
			for _, sp := range g.Specs {
				if hit(sp) {
					blank(sp.Pos(), sp.End())
				}
			}
			continue
		}
		if fd, ok := d.(*ast.FuncDecl); ok {
			names = append(names, fd.Name.Name)
		}
		blank(d.Pos(), d.End())
	}
	return out, names
}

// useHarnessFile selects harness files: support files always, property files
// (h_<prop>*.go) only for the properties being checked.
func useHarnessFile(path string, only map[string]bool) bool {
	b := filepath.Base(path)
	if only == nil || !strings.HasPrefix(b, "h_") {
		return true
	}
	b = strings.TrimSuffix(strings.TrimPrefix(b, "h_"), ".go")
	for _, part := range strings.Split(b, "_") {
		if only[part] {
			return true
		}
	}
	return false
}

func (e *Engine) typeOf(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (e *Engine) funcOf(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (e *Engine) build(p *ssa.Package) { p.Build() }

func (e *Engine) buildFn(fn *ssa.Function) {
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		}
		for q := fn.Parent(); p == nil && q != nil; q = q.Parent() {
			p = q.Pkg
		}
	}
	if p != nil {
		if _, ok := e.builtPk.Load(p); !ok {
			p.Build()
			e.builtPk.Store(p, true)
		}
	}
}

func (e *Engine) intrinsic(fn *ssa.Function) intrinsicFn {
	if v, ok := e.intrCache.Load(fn); ok {
		return v.(intrinsicFn)
	}
	m := e.findIntrinsic(fn)
	e.intrCache.Store(fn, m)
	return m
}

func noop(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
	return in.zeroResult(fn), stOK
}

func (in *Interp) zeroResult(fn *ssa.Function) Value { return zeroResults(fn) }

// noopPkgs: functions of these packages do nothing and return zero values
// (logging and metrics: no property reads their effects).
var noopPkgs = []string{"github.com/rs/zerolog", "github.com/prometheus/client_golang", "github.com/ipfs/go-log", "go.uber.org/zap"}

func inNoop(path string) bool {
	for _, p := range noopPkgs {
		if path == p || strings.HasPrefix(path, p+"/") {
			return true
		}
	}
	return false
}

func (e *Engine) findIntrinsic(fn *ssa.Function) intrinsicFn {
	name := fn.String()
	if strings.HasPrefix(fn.Name(), "file_") && strings.HasSuffix(fn.Name(), "_proto_init") {
		return noop // generated registration of protobuf types; the codec is modelled
	}
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	if m, ok := e.intr[name]; ok {
		return m
	}
	if fn.Synthetic == "package initializer" {
		return noop
	}
	var pkg *types.Package
	if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	} else if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	}
	if pkg != nil && inNoop(pkg.Path()) {
		return noopIface
	}
	return nil
}

// noopIface returns zero results, but non-nil no-op objects for interfaces.
func noopIface(in *Interp, g *Gor, a []Value, fn *ssa.Function) (Value, status) {
	r := fn.Signature.Results()
	one := func(t types.Type) Value {
		if _, ok := t.Underlying().(*types.Interface); ok {
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				return Iface{}
			}
			return Iface{t: t, v: &Opaque{kind: "noop"}}
		}
		return zero(t)
	}
	switch r.Len() {
	case 0:
		return nil, stOK
	case 1:
		return one(r.At(0).Type()), stOK
	}
	t := make(Tuple, r.Len())
	for i := range t {
		t[i] = one(r.At(i).Type())
	}
	return t, stOK
}

func (in *Interp) opaqueMethod(o *Opaque, i Iface, m *types.Func) Value {
	switch o.kind {
	case "sha256", "ripemd":
		if f := hashMethod(o, m.Name()); f != nil {
			return &Closure{name: m.Name(), native: f}
		}
	case "noop":
		sig := m.Type().(*types.Signature)
		return &Closure{name: m.Name(), native: func(in *Interp, g *Gor, args []Value) Value {
			r := sig.Results()
			switch r.Len() {
			case 0:
				return nil
			case 1:
				if _, ok := r.At(0).Type().Underlying().(*types.Interface); ok && !types.Identical(r.At(0).Type(), types.Universe.Lookup("error").Type()) {
					return Iface{t: r.At(0).Type(), v: &Opaque{kind: "noop"}}
				}
				return zero(r.At(0).Type())
			}
			return zero(r)
		}}
	}
	in.unsupported("method %s on opaque %s", m.Name(), o.kind)
	return nil
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name}
	if v, ok := e.methCache.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.loadMu.Lock()
	defer e.loadMu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	m := e.prog.MethodValue(sel)
	if m != nil {
		e.methCache.Store(k, m)
	}
	return m
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := e.implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	e.implCache.Store(k, r)
	return r
}

var skipInits = []string{"github.com/rs/zerolog", "github.com/prometheus", "net/http", "reflect", "crypto/tls", "runtime",
	"os", "syscall", "internal/poll", "internal/godebug", "internal/cpu", "net", "github.com/cosmos/cosmos-sdk/codec",
	"google.golang.org/", "github.com/gogo/protobuf", "github.com/golang/protobuf", "crypto/rand", "crypto/sha256", "crypto/internal", "hash/crc32",
	"internal/syscall", "vendor/", "github.com/tendermint/go-amino", "github.com/tendermint/tendermint/libs/json"}

func (e *Engine) skipInit(path string) bool {
	switch path { // hosts and DHT are stand-ins
	case "github.com/libp2p/go-libp2p", "github.com/libp2p/go-libp2p/config", "github.com/libp2p/go-libp2p-kad-dht":
		return true
	}
	for _, p := range skipInits {
		if path == p || (strings.HasSuffix(p, "/") && strings.HasPrefix(path, p)) || strings.HasPrefix(path, p+"/") {
			if path == "net/http" || p == "net" && path != "net" {
				return path == "net/http"
			}
			return true
		}
	}
	return false
}

func (e *Engine) noteIncomplete(msg string) { e.run.note(msg) }

func jsonString(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// skippedGlobals are values of packages whose init is not run.
var skippedGlobals = map[string][]byte{
	"net.v4InV6Prefix":    {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff},
	"net.IPv4bcast":       net.IPv4bcast,
	"net.IPv4allsys":      net.IPv4allsys,
	"net.IPv4allrouter":   net.IPv4allrouter,
	"net.IPv4zero":        net.IPv4zero,
	"net.IPv6zero":        net.IPv6zero,
	"net.IPv6unspecified": net.IPv6unspecified,
	"net.IPv6loopback":    net.IPv6loopback,
	"net.classAMask":      net.IPv4Mask(0xff, 0, 0, 0),
	"net.classBMask":      net.IPv4Mask(0xff, 0xff, 0, 0),
	"net.classCMask":      net.IPv4Mask(0xff, 0xff, 0xff, 0),
}

// initialised: the init function of the package sets the global.
func (e *Engine) initialised(g *ssa.Global) bool {
	if v, ok := e.initCache.Load(g); ok {
		return v.(bool)
	}
	e.build(g.Pkg)
	r := false
	if f := g.Pkg.Func("init"); f != nil {
		e.buildFn(f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op == ssa.Value(g) {
						r = true
					}
				}
			}
		}
	}
	e.initCache.Store(g, r)
	return r
}
