package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/batchatco/go-native-netcdf"

type World struct {
	specs   *Specs
	prog    *ssa.Program
	fset    *token.FileSet
	repo    string
	debug   bool
	pkgs    map[string]*ssa.Package
	fns     map[string]*ssa.Function
	stored  map[*ssa.Global]bool
	nonNil  map[*ssa.Global]bool
	initVal map[*ssa.Global]ssa.Value
	timeout int
	solve   *Solver
}

func load(repo string) (*World, error) {
	w := &World{repo: repo, pkgs: map[string]*ssa.Package{}, fns: map[string]*ssa.Function{}, stored: map[*ssa.Global]bool{}, nonNil: map[*ssa.Global]bool{}, initVal: map[*ssa.Global]ssa.Value{}}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	w.fset = prog.Fset
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		w.fns[fn.String()] = fn
		w.scanGlobals(fn)
	}
	// named functions of the module, reachable or not
	for path, p := range w.pkgs {
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		for _, m := range p.Members {
			switch v := m.(type) {
			case *ssa.Function:
				w.fns[v.String()] = v
			case *ssa.Type:
				for _, t := range []types.Type{v.Type(), types.NewPointer(v.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							w.fns[f.String()] = f
						}
					}
				}
			}
		}
	}
	return w, nil
}

func (w *World) scanGlobals(fn *ssa.Function) {
	isInit := fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#")
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					if isInit {
						if _, twice := w.initVal[g]; twice {
							w.stored[g] = true
						}
						w.initVal[g] = s.Val
						w.nonNil[g] = nonNilValue(s.Val)
						continue
					}
				}
			}
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok {
					continue
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				w.stored[g] = true // address taken or stored to
			}
		}
	}
}

func nonNilValue(v ssa.Value) bool {
	switch u := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeInterface, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr:
		return true
	case *ssa.ChangeInterface:
		return nonNilValue(u.X)
	case *ssa.Call:
		if f := u.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "errors.New", "fmt.Errorf":
				return true
			}
			if strings.HasSuffix(f.Name(), "NewLogger") {
				return true
			}
		}
	}
	return false
}

func (w *World) constGlobal(g *ssa.Global) bool { return !w.stored[g] }
func (w *World) initNonNil(g *ssa.Global) bool  { return w.nonNil[g] && !w.stored[g] }

func (w *World) inRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return strings.HasPrefix(f.Origin().Pkg.Pkg.Path(), modPath)
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
	}
	return false
}

func sortedFns(m map[string]*ssa.Function) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
