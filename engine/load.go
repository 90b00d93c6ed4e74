package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(harness, repo string, overlay map[string][]byte, extra ...string) (*Program, map[string]*ssa.Function, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  harness,
		// files only another platform builds
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local"),
	}
	pk, err := packages.Load(cfg, append([]string{"./props"}, extra...)...)
	if err != nil {
		return nil, nil, err
	}
	var msgs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, nil, fmt.Errorf("loading: %s", strings.Join(msgs, "; "))
	}
	prog, sp := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, globals: map[*ssa.Global]int32{}, repo: repo}
	hs := map[string]*ssa.Function{}
	for _, p := range sp {
		if p == nil || p.Pkg.Name() != "props" {
			continue
		}
		for name, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if ok && len(name) > 4 && name[0] == 'C' && name[3] == '_' && f.Signature.Params().Len() == 0 {
				hs[name] = f
			}
		}
	}
	return P, hs, nil
}

func harnessNames(hs map[string]*ssa.Function, prop string) []string {
	var out []string
	for n := range hs {
		if strings.HasPrefix(n, prop+"_") {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}
