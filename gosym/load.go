package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by import path
	repo  string
	pats  []string
	ppkgs []*packages.Package
}

const modPath = "github.com/signal-golang/textsecure"

// Load loads the packages (relative dirs of the repo) with overlay.
func Load(repo string, dirs []string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=1"),
	}
	if tmp, err := zkStandIn(repo); err == nil {
		defer os.RemoveAll(tmp)
		cfg.BuildFlags = []string{"-modfile=" + filepath.Join(tmp, "go.mod")}
	} else {
		return nil, err
	}
	var pats []string
	for _, d := range dirs {
		if d == "." || d == "" {
			pats = append(pats, modPath)
		} else {
			pats = append(pats, modPath+"/"+d)
		}
	}
	sort.Strings(pats)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, repo: repo, pats: pats, ppkgs: pkgs}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	prog.Build()
	return p, nil
}

func absJoin(a, b string) string { r, _ := filepath.Abs(filepath.Join(a, b)); return r }

// zkStandIn makes a go.mod for loading in which the cgo library behind group
// credentials is replaced by the ideal stand-in in zkmodel.go.txt.
func zkStandIn(repo string) (string, error) {
	tmp, err := os.MkdirTemp("", "gosym-mod")
	if err != nil {
		return "", err
	}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return "", err
	}
	const zk = "github.com/nanu-c/zkgroup"
	d := filepath.Join(tmp, "zkgroup")
	os.Mkdir(d, 0700)
	for f, b := range map[string]string{
		filepath.Join(tmp, "go.mod"):   string(mod) + "\nreplace " + zk + " => " + d + "\n",
		filepath.Join(tmp, "go.sum"):   string(sum),
		filepath.Join(d, "go.mod"):     "module " + zk + "\n\ngo 1.13\n",
		filepath.Join(d, "zkgroup.go"): zkSrc,
	} {
		if err := os.WriteFile(f, []byte(b), 0600); err != nil {
			return "", err
		}
	}
	return tmp, nil
}
