package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// The multi-party computation itself (tss-lib, a dependency) is replaced by a
// stand-in the harness controls: a copy of tss-lib, in which NewLocalParty
// asks a hook first, is used through -modfile, by the engine and the native
// replay alike.

const tssLib = "github.com/binance-chain/tss-lib"

// hookMod is a dependency of which a copy with hooks is used when a selected
// harness mentions the marker. The libp2p host, its DHT and the announcements
// are replaced in the same way where a harness starts a whole node.
type hookMod struct {
	path, marker string
	rename       map[string][2]string // file -> text, its replacement
	add          map[string]string    // file -> content
}

var hookMods = []hookMod{
	{tssLib, "VerifNewLocalParty",
		map[string][2]string{
			"ecdsa/signing/local_party.go": {"\nfunc NewLocalParty(", "\nfunc verifNewLocalParty("},
			"ecdsa/keygen/local_party.go":  {"\nfunc NewLocalParty(", "\nfunc verifNewLocalParty("},
		},
		map[string]string{"ecdsa/signing/verif_hook.go": signHook, "ecdsa/keygen/verif_hook.go": keygenHook}},
	{"github.com/libp2p/go-libp2p", "libp2p.VerifNew",
		map[string][2]string{"libp2p.go": {"\nfunc New(", "\nfunc verifNew("}},
		map[string]string{"verif_hook.go": hostHook}},
	{"github.com/libp2p/go-libp2p-kad-dht", "libp2p.VerifNew",
		map[string][2]string{
			"dht.go":           {"\nfunc New(", "\nfunc verifNew("},
			"dht_bootstrap.go": {"\nfunc (dht *IpfsDHT) Bootstrap(", "\nfunc (dht *IpfsDHT) verifBootstrap("},
		},
		map[string]string{"verif_hook.go": dhtHook}},
	{"github.com/libp2p/go-libp2p-discovery", "libp2p.VerifNew",
		map[string][2]string{"util.go": {"\nfunc Advertise(", "\nfunc verifAdvertise("}},
		map[string]string{"verif_hook.go": discoveryHook}},
}

const hostHook = `package libp2p

import (
	"context"

	"github.com/libp2p/go-libp2p-core/host"
)

var VerifNew func(ctx context.Context, opts ...Option) (host.Host, error)

func New(ctx context.Context, opts ...Option) (host.Host, error) {
	if VerifNew != nil {
		return VerifNew(ctx, opts...)
	}
	return verifNew(ctx, opts...)
}
`

const dhtHook = `package dht

import (
	"context"

	"github.com/libp2p/go-libp2p-core/host"
)

var VerifNew func(ctx context.Context, h host.Host) error

func New(ctx context.Context, h host.Host, options ...Option) (*IpfsDHT, error) {
	if VerifNew != nil {
		if err := VerifNew(ctx, h); err != nil {
			return nil, err
		}
		return &IpfsDHT{}, nil
	}
	return verifNew(ctx, h, options...)
}

func (dht *IpfsDHT) Bootstrap(ctx context.Context) error {
	if VerifNew != nil {
		return nil
	}
	return dht.verifBootstrap(ctx)
}
`

const discoveryHook = `package discovery

import "context"

var VerifAdvertise func(ns string)

func Advertise(ctx context.Context, a Advertiser, ns string, opts ...Option) {
	if VerifAdvertise != nil {
		VerifAdvertise(ns)
		return
	}
	verifAdvertise(ctx, a, ns, opts...)
}
`

const signHook = `package signing

import (
	"math/big"

	"github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/binance-chain/tss-lib/tss"
)

var VerifNewLocalParty func(msg *big.Int, params *tss.Parameters, key keygen.LocalPartySaveData, out chan<- tss.Message, end chan<- *SignatureData) tss.Party

func NewLocalParty(msg *big.Int, params *tss.Parameters, key keygen.LocalPartySaveData, out chan<- tss.Message, end chan<- *SignatureData) tss.Party {
	if VerifNewLocalParty != nil {
		return VerifNewLocalParty(msg, params, key, out, end)
	}
	return verifNewLocalParty(msg, params, key, out, end)
}
`

const keygenHook = `package keygen

import "github.com/binance-chain/tss-lib/tss"

var VerifNewLocalParty func(params *tss.Parameters, out chan<- tss.Message, end chan<- LocalPartySaveData, pre ...LocalPreParams) tss.Party

func NewLocalParty(params *tss.Parameters, out chan<- tss.Message, end chan<- LocalPartySaveData, pre ...LocalPreParams) tss.Party {
	if VerifNewLocalParty != nil {
		return VerifNewLocalParty(params, out, end, pre...)
	}
	return verifNewLocalParty(params, out, end, pre...)
}
`

// neededHooks are those a selected harness uses.
func neededHooks(repo, verif string, only map[string]bool) []hookMod {
	var r []hookMod
	for _, m := range hookMods {
		for _, src := range overlayFiles(repo, verif) {
			if useHarnessFile(src, only) {
				if b, _ := os.ReadFile(src); bytes.Contains(b, []byte(m.marker)) {
					r = append(r, m)
					break
				}
			}
		}
	}
	return r
}

// hookModules makes the copies below dir and returns the module file that uses them.
func hookModules(repo, dir string, mods []hookMod) (string, error) {
	mod := filepath.Join(dir, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			return "", err
		}
	}
	for _, m := range mods {
		dst := filepath.Join(dir, filepath.Base(m.path))
		if err := m.copy(repo, dst); err != nil {
			return "", err
		}
		if o, err := exec.Command("go", "mod", "edit", "-replace="+m.path+"="+dst, mod).CombinedOutput(); err != nil {
			return "", fmt.Errorf("go mod edit: %v %s", err, o)
		}
	}
	return mod, nil
}

func (m hookMod) copy(repo, dst string) error {
	c := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", m.path)
	c.Dir = repo
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
	o, err := c.Output()
	if err != nil {
		return fmt.Errorf("go list %s: %v", m.path, err)
	}
	src := strings.TrimSpace(string(o))
	err = filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || !strings.HasSuffix(p, ".go") && fi.Name() != "go.mod" && fi.Name() != "go.sum" {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if r, ok := m.rename[rel]; ok {
			if bytes.Count(b, []byte(r[0])) != 1 {
				return fmt.Errorf("no %q in %s", r[0], p)
			}
			b = bytes.Replace(b, []byte(r[0]), []byte(r[1]), 1)
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		return err
	}
	for f, s := range m.add {
		if err := os.WriteFile(filepath.Join(dst, f), []byte(s), 0o644); err != nil {
			return err
		}
	}
	return nil
}
