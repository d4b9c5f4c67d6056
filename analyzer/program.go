package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = func() string {
	if d := os.Getenv("GOSMS_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

const modPath = "github.com/hrygo/gosms/"

// Program is the type-checked SSA form of the workspace.
type Program struct {
	Prog  *ssa.Program
	Pkgs  []*ssa.Package
	Src   []*packages.Package
	By    map[string]*ssa.Package // by import path
	Fset  *token.FileSet
	Files int
	infos map[*ssa.Function]*fnInfo
	All   []*ssa.Function // every function with a body in the workspace
	base  map[string]*Obj // heap after package initialisation
	mut   map[*ssa.Global]bool
	glob  map[*ssa.Global]bool
}

// Load type-checks the workspace from source and builds SSA.
func Load() (*Program, error) {
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
		packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps
	cfg := &packages.Config{Mode: mode, Dir: repoDir, Env: append(os.Environ(), "GOWORK="+repoDir+"/go.work")}
	var pats []string
	for _, d := range []string{"auth", "codec", "database", "event_manager", "msc_client", "msc_server", "utils"} {
		if _, err := os.Stat(filepath.Join(repoDir, d)); err == nil {
			pats = append(pats, "./"+d+"/...")
		}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Program{By: map[string]*ssa.Package{}, infos: map[*ssa.Function]*fnInfo{}, mut: map[*ssa.Global]bool{}, glob: map[*ssa.Global]bool{}, Src: pkgs}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("type-check: %s", e)
		}
		p.Files += len(pk.CompiledGoFiles)
	}
	if len(pkgs) < 10 {
		return nil, fmt.Errorf("only %d packages loaded", len(pkgs))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog, p.Pkgs = prog, sp
	p.Fset = prog.Fset
	own := map[*ssa.Package]bool{}
	for _, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("package without SSA")
		}
		own[s] = true
		p.By[s.Pkg.Path()] = s
	}
	seen := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		if seen[fn] || len(fn.Blocks) == 0 {
			continue
		}
		if fn.Pkg != nil && own[fn.Pkg] || (fn.Pkg == nil && fn.Synthetic != "") {
			seen[fn] = true
			p.All = append(p.All, fn)
		}
	}
	sort.Slice(p.All, func(i, j int) bool {
		if p.All[i].Pos() != p.All[j].Pos() {
			return p.All[i].Pos() < p.All[j].Pos()
		}
		return p.All[i].String() < p.All[j].String()
	})
	p.findMutable()
	if err := p.runInits(pkgs); err != nil {
		return nil, err
	}
	return p, nil
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if i, ok := p.infos[fn]; ok {
		return i
	}
	i := buildInfo(fn)
	p.infos[fn] = i
	return i
}

// pos formats a position relative to the repository.
// funcAt names the function declaration around a position.
func (p *Program) funcAt(pos token.Pos) string {
	for _, pk := range p.Src {
		for _, f := range pk.Syntax {
			if f.Pos() > pos || pos >= f.End() {
				continue
			}
			for _, d := range f.Decls {
				if d.Pos() > pos || pos >= d.End() {
					continue
				}
				switch x := d.(type) {
				case *ast.FuncDecl:
					return pk.Name + "." + x.Name.Name
				case *ast.GenDecl:
					for _, s := range x.Specs {
						if v, ok := s.(*ast.ValueSpec); ok && v.Pos() <= pos && pos < v.End() {
							return pk.Name + "." + v.Names[0].Name
						}
					}
				}
			}
		}
	}
	return "?"
}

func (p *Program) pos(pos token.Pos) string { return posStr(p.Fset, pos) }

// findMutable marks package variables changed after initialisation.
func (p *Program) findMutable() {
	var readOnly func(v ssa.Value, depth int) bool
	readOnly = func(v ssa.Value, depth int) bool {
		if depth > 8 || v.Referrers() == nil {
			return false
		}
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.UnOp, *ssa.BinOp, *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.Index, *ssa.Field:
				if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
					switch u.Type().Underlying().(type) {
					case *types.Map, *types.Slice, *types.Pointer:
						if _, isPtr := u.Type().Underlying().(*types.Pointer); isPtr {
							continue // pointee handled as shared memory
						}
						if !readOnly(u, depth+1) {
							return false
						}
					}
				}
			case *ssa.FieldAddr:
				if !readOnly(x, depth+1) {
					return false
				}
			case *ssa.IndexAddr:
				if !readOnly(x, depth+1) {
					return false
				}
			case *ssa.Phi:
				if !readOnly(x, depth+1) {
					return false
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				// value loaded and passed on: scalars and strings were filtered above
				return false
			default:
				return false
			}
		}
		return true
	}
	for _, fn := range p.All {
		isInit := fn.Pkg != nil && fn == fn.Pkg.Func("init")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					g, ok := (*o).(*ssa.Global)
					if !ok || isInit {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						switch x.Type().Underlying().(type) {
						case *types.Map, *types.Slice:
							if !readOnly(x, 0) {
								p.mut[g] = true
							}
						}
					case *ssa.FieldAddr:
						if !readOnly(x, 0) {
							p.mut[g] = true
						}
					case *ssa.IndexAddr:
						if !readOnly(x, 0) {
							p.mut[g] = true
						}
					case *ssa.DebugRef:
					default:
						p.mut[g] = true
					}
				}
			}
		}
	}
}

// globalObj registers the object of a package variable.
func (p *Program) globalObj(g *ssa.Global) {
	if p.glob[g] {
		return
	}
	p.glob[g] = true
	id := "G:" + g.String()
	t := deref(g.Type())
	o := &Obj{ID: id, Kind: OCell, Typ: t, Sym: mk("global:" + g.String()), Pub: true, F: map[string]Val{}}
	if p.By[g.Pkg.Pkg.Path()] == nil && types.Identical(t, types.Universe.Lookup("error").Type()) {
		o.F[""] = libErr(g.String())
	}
	symObjs[id] = o
}

// libErr is a library's error variable.
func libErr(name string) Val {
	return TermV{T: mk("nonnil:global:" + name), Typ: types.Universe.Lookup("error").Type()}
}

// runInits interprets the variable initialisers of every package.
func (p *Program) runInits(pkgs []*packages.Package) error {
	e := NewEngine(p)
	st := newState(nil)
	e.MaxStep = 2_000_000
	for _, sp := range p.Pkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.globalObj(g)
			}
		}
	}
	// order by dependencies: ssa init functions call their imports' init first
	done := map[*ssa.Package]bool{}
	var visit func(sp *ssa.Package)
	visit = func(sp *ssa.Package) {
		if done[sp] {
			return
		}
		done[sp] = true
		for _, im := range sp.Pkg.Imports() {
			if d := p.By[im.Path()]; d != nil {
				visit(d)
			}
		}
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			return
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				o := symObjs["G:"+g.String()].clone()
				o.Sym = nil
				st.setObj(o)
			}
		}
		// init$guard is false: the initialisers run
		outs := e.runInit(fn, st)
		if len(outs) != 1 {
			panic(undecided("package initialiser of %s has %d outcomes", sp.Pkg.Path(), len(outs)))
		}
		st = outs[0].St
	}
	for _, sp := range p.Pkgs {
		visit(sp)
	}
	base := map[string]*Obj{}
	for id, o := range st.heap {
		base[id] = o
	}
	for g := range p.glob {
		id := "G:" + g.String()
		if p.mut[g] || g.Name() == "init$guard" {
			delete(base, id) // symbolic
			continue
		}
		if o := base[id]; o != nil {
			n := o.clone()
			n.Pub = true
			base[id] = n
		}
	}
	// cells allocated by initialisers and reachable through pointers may change later
	for id, o := range base {
		if strings.HasPrefix(id, "A") {
			n := o.clone()
			n.Pub = true
			if o.Kind == OCell && o.Tag != "err" {
				n.F = map[string]Val{}
				n.Sym = mk("initcell:" + id)
			}
			base[id] = n
		}
	}
	p.base = base
	return nil
}

// runInit executes a synthesized package initialiser without its dependencies.
func (e *Engine) runInit(fn *ssa.Function, st *State) []Outcome {
	e.initOf = fn.Pkg
	defer func() { e.initOf = nil }()
	return e.Run(fn, nil, nil, st, fn.Pos())
}

// ---- lookups

func (p *Program) pkg(path string) *ssa.Package {
	sp := p.By[modPath+path]
	if sp == nil {
		panic(undecided("anchor: package %s%s not found", modPath, path))
	}
	return sp
}

func (p *Program) fn(path, name string) *ssa.Function {
	f := p.pkg(path).Func(name)
	if f == nil {
		panic(undecided("anchor: function %s.%s not found", path, name))
	}
	return f
}

func (p *Program) typ(path, name string) *types.Named {
	t := p.pkg(path).Type(name)
	if t == nil {
		panic(undecided("anchor: type %s.%s not found", path, name))
	}
	return t.Type().(*types.Named)
}

func (p *Program) iface(path, name string) *types.Interface {
	return p.typ(path, name).Underlying().(*types.Interface)
}

func (p *Program) method(t types.Type, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// implementers lists named types T of the package whose *T implements the interface.
func (p *Program) implementers(sp *ssa.Package, i *types.Interface) []*types.Named {
	var r []*types.Named
	for _, m := range sp.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := t.Type().(*types.Named)
		if !ok || types.IsInterface(n) || n.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(types.NewPointer(n), i) {
			r = append(r, n)
		}
	}
	sort.Slice(r, func(a, b int) bool { return r[a].Obj().Name() < r[b].Obj().Name() })
	return r
}
