package main

// Models for standard-library internals the network packages need.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func netIntrinsics(reg regFn) {
	for _, p := range []string{"github.com/gogo/protobuf/proto.", "github.com/golang/protobuf/proto."} {
		for _, n := range []string{"RegisterType", "RegisterFile", "RegisterEnum", "RegisterExtension", "RegisterMapType", "RegisterGolangRegistry"} {
			reg(p+n, noop)
		}
	}
	reg("github.com/libp2p/go-libp2p-core/record.RegisterType", noop)
	// context.WithValue without the check of the key by reflection
	reg("context.WithValue", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		t := fn.Pkg.Pkg.Scope().Lookup("valueCtx").Type()
		p := new(Value)
		*p = Struct{a[0], a[1], a[2]}
		return Iface{t: types.NewPointer(t), v: p}
	}))
	// unique.Make: one cell per distinct value
	reg("unique.Make", pure(func(in *Interp, g *Gor, a []Value, fn *ssa.Function) Value {
		var sb strings.Builder
		sb.WriteString("u:" + fn.String() + ":")
		if !canonKey(a[0], &sb) {
			in.unsupported("unique.Make of a symbolic value")
		}
		if p, ok := in.w.uniq[sb.String()]; ok {
			return Struct{p}
		}
		p := new(Value)
		*p = copyVal(a[0])
		in.w.uniq[sb.String()] = p
		return Struct{p}
	}))
}
