package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/rossmerr/graphblas"

// initialised standard packages (besides the repository and the harness)
var initAllow = map[string]bool{
	"errors": true, "context": true, "io": true, "unicode/utf8": true, "strings": true,
	"math": true, "math/bits": true, "sort": true, "slices": true, "maps": true, "cmp": true,
	"internal/bytealg": true, "bytes": true, "iter": true, "container/heap": true, "container/list": true,
}

// LoadProgram type-checks the harness module and everything it imports, including the current
// source of the repository, and builds SSA.
func LoadProgram(harnessDir string, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: harnessDir,
		Env: append(append(os.Environ(), env...), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "verif/harness/props")
	if err != nil {
		return nil, err
	}
	var bad []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	})
	if len(bad) > 0 {
		if len(bad) > 10 {
			bad = bad[:10]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(bad, "\n"))
	}
	prog, ips := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, inited: map[*ssa.Package]bool{}, repoPath: repoModule, harness: ips[0]}

	if rt := prog.ImportedPackage("runtime"); rt != nil {
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			P.rtErr = o.Type()
		}
	}
	if P.rtErr == nil {
		P.rtErr = types.Typ[types.String]
	}
	if rp := prog.ImportedPackage("reflect"); rp != nil {
		if o := rp.Pkg.Scope().Lookup("rtype"); o != nil {
			P.rtypePtr = types.NewPointer(o.Type())
		}
	}
	// packages to initialise, dependencies first
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		path := p.Path()
		if initAllow[path] || path == repoModule || strings.HasPrefix(path, repoModule+"/") || strings.HasPrefix(path, "verif/harness/") {
			if sp := prog.Package(p); sp != nil {
				P.initPkgs = append(P.initPkgs, sp)
			}
		}
	}
	visit(ips[0].Pkg)
	for _, p := range P.initPkgs {
		P.inited[p] = true
	}
	return P, nil
}

func allowUninit(g *ssa.Global) bool { return strings.HasPrefix(g.Name(), "init$") }

// initJob is the pseudo job used while package initialisers run.
var initJob = &Job{Cfg: JobCfg{Preempt: 0}, MaxSteps: 20000000}

// initPackages runs the package initialisers once and keeps the resulting globals as snapshot.
func (in *Interp) initPackages() error {
	in.snap = map[*ssa.Global]*value{}
	for _, p := range in.P.initPkgs {
		r := in.newRun(initJob, pendingPath{})
		r.initPhase = true
		for g, v := range in.snap {
			r.globals[g] = v
		}
		r.execute(p.Func("init"), nil)
		path := p.Pkg.Path()
		ours := path == repoModule || strings.HasPrefix(path, repoModule+"/") || strings.HasPrefix(path, "verif/")
		if r.outcome.kind != "ok" {
			if ours {
				return fmt.Errorf("initialiser of %s: %s %s", path, r.outcome.kind, r.outcome.msg)
			}
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "init of %s: %s %s\n", path, r.outcome.kind, r.outcome.msg)
			}
		}
		if len(r.pend) > 0 && ours {
			return fmt.Errorf("initialiser of %s branches", path)
		}
		for g, v := range r.globals {
			in.snap[g] = v
		}
	}
	return nil
}

// reachableRepo lists the repository functions executed and their call counts.
func (P *Program) reachableRepo() map[string]int64 {
	out := map[string]int64{}
	P.infos.Range(func(k, v any) bool {
		fi := v.(*fnInfo)
		if fi.repo {
			if n := atomic.LoadInt64(&fi.calls); n > 0 {
				out[fi.name] += n
			}
		}
		return true
	})
	return out
}
