package main

import (
	"fmt"
	"go/ast"
	gotoken "go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type intr struct {
	nat func(m *Machine, args []Value) Value
	fn  *ssa.Function
}

type Program struct {
	prog     *ssa.Program
	fset     *gotoken.FileSet
	pkgs     map[string]*ssa.Package
	repl     map[string]*ssa.Function // function name -> model
	globalOv map[string]*ssa.Global
	harness  map[string]*ssa.Function
	hpos     map[string]string
	hopts    map[string]map[string]string
	rtErrT   types.Type
	modelPkg *ssa.Package
	mainPkg  *ssa.Package
	dropped  []string

	mu      sync.Mutex
	mcache  map[string]*ssa.Function
	icache  map[string]bool
	inCache sync.Map
}

const modPath = "github.com/opencoff/sigtool"

func goEnv() []string {
	e := os.Environ()
	return append(e, "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GONOSUMDB=*", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")
}

func readTree(dir, dst string, ov map[string][]byte, only func(string) bool) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		if only != nil && !only(e.Name()) {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return err
		}
		ov[filepath.Join(dst, e.Name())] = b
	}
	return nil
}

// overlayFiles maps repo paths to verif source files.
func overlayFiles(root, repo string, wb bool, native bool) map[string]string {
	out := map[string]string{}
	add := func(dir, dst string) {
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") {
				continue
			}
			out[filepath.Join(dst, n)] = filepath.Join(dir, n)
		}
	}
	if native {
		add(filepath.Join(root, "vx", "native"), filepath.Join(repo, "internal/vx"))
		add(filepath.Join(root, "vx", "replay"), filepath.Join(repo, "internal/vxreplay"))
	} else {
		add(filepath.Join(root, "vx", "sym"), filepath.Join(repo, "internal/vx"))
		add(filepath.Join(root, "vxm"), filepath.Join(repo, "internal/vxm"))
	}
	add(filepath.Join(root, "vxh"), filepath.Join(repo, "internal/vxh"))
	if wb {
		add(filepath.Join(root, "wb"), filepath.Join(repo, "sign"))
	}
	return out
}

func Load(root, repo string) (*Program, error) {
	p, err := load1(root, repo, true)
	if err != nil && strings.Contains(err.Error(), "vxwb_") {
		msg := err.Error()
		p, err = load1(root, repo, false)
		if p != nil {
			p.dropped = append(p.dropped, "white-box harness file does not type-check against this tree: "+msg)
		}
	}
	return p, err
}

func load1(root, repo string, wb bool) (*Program, error) {
	ov := map[string][]byte{}
	for dst, src := range overlayFiles(root, repo, wb, false) {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: ov,
	}
	pats := []string{"./sign", "./src", "./internal/pb", "./internal/vx", "./internal/vxm", "./internal/vxh"}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, repl: map[string]*ssa.Function{},
		globalOv: map[string]*ssa.Global{}, harness: map[string]*ssa.Function{}, hpos: map[string]string{}, hopts: map[string]map[string]string{},
		mcache: map[string]*ssa.Function{}, icache: map[string]bool{}}
	for _, sp := range prog.AllPackages() {
		P.pkgs[sp.Pkg.Path()] = sp
	}
	P.modelPkg = P.pkgs[modPath+"/internal/vxm"]
	P.mainPkg = P.pkgs[modPath+"/src"]
	packages.Visit(ps, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, modPath) {
			return
		}
		sp := P.pkgs[pk.PkgPath]
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if pk.PkgPath == modPath+"/internal/vxm" && x.Doc != nil {
						for _, c := range x.Doc.List {
							if s, ok := strings.CutPrefix(c.Text, "//vx:replace "); ok {
								fn := prog.FuncValue(pk.TypesInfo.Defs[x.Name].(*types.Func))
								for _, n := range strings.Fields(s) {
									P.repl[n] = fn
								}
							}
						}
					}
					nm := x.Name.Name
					if x.Recv == nil && strings.HasPrefix(nm, "H_") {
						P.harness[nm] = sp.Func(nm)
						pos := pk.Fset.Position(x.Pos())
						P.hpos[nm] = filepath.Base(pos.Filename)
						o := map[string]string{}
						if x.Doc != nil {
							for _, c := range x.Doc.List {
								if s, ok := strings.CutPrefix(c.Text, "//vx:opt "); ok {
									for _, kv := range strings.Fields(s) {
										k, v, _ := strings.Cut(kv, "=")
										o[k] = v
									}
								}
								if s, ok := strings.CutPrefix(c.Text, "//vx:bound "); ok {
									o["bound"] += s + " "
								}
							}
						}
						P.hopts[nm] = o
					}
				case *ast.GenDecl:
					if pk.PkgPath != modPath+"/internal/vxm" {
						continue
					}
					for _, s := range x.Specs {
						vs, ok := s.(*ast.ValueSpec)
						if !ok {
							continue
						}
						doc := vs.Doc
						if doc == nil {
							doc = x.Doc
						}
						if doc == nil {
							continue
						}
						for _, c := range doc.List {
							if s, ok := strings.CutPrefix(c.Text, "//vx:global "); ok {
								for _, n := range strings.Fields(s) {
									P.globalOv[n] = sp.Var(vs.Names[0].Name)
								}
							}
						}
					}
				}
			}
		}
	})
	if P.modelPkg != nil {
		if t := P.modelPkg.Type("RuntimeError"); t != nil {
			P.rtErrT = t.Type()
		}
	}
	return P, nil
}

func (e *Engine) rtError(msg string) Iface {
	return Iface{t: e.rtErrT, v: mkStr(msg)}
}

// lookupIntr finds a replacement for fn.
func (e *Engine) lookupIntr(fn *ssa.Function) *intr {
	if v, ok := e.inCache.Load(fn); ok {
		return v.(*intr)
	}
	var h *intr
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if f, ok := intrinsics[name]; ok {
		h = &intr{nat: f}
	} else if f, ok := e.repl[name]; ok && f != fn {
		h = &intr{fn: f}
	}
	e.inCache.Store(fn, h)
	return h
}

func (e *Engine) method(t types.Type, meth *types.Func) *ssa.Function {
	return e.methodKey(t, meth.Pkg(), meth.Name(), meth.Exported())
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	return e.methodKey(t, nil, name, true)
}

func (e *Engine) methodKey(t types.Type, pkg *types.Package, name string, exp bool) *ssa.Function {
	k := t.String() + "|" + name
	if !exp && pkg != nil {
		k += "|" + pkg.Path()
	}
	e.mu.Lock()
	f, ok := e.mcache[k]
	e.mu.Unlock()
	if ok {
		return f
	}
	sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil && pkg == nil {
		// search any package
		ms := e.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sel = ms.At(i)
			}
		}
	}
	if sel != nil {
		f = e.prog.MethodValue(sel)
	}
	e.mu.Lock()
	e.mcache[k] = f
	e.mu.Unlock()
	return f
}

func (e *Engine) implements(t, it types.Type) bool {
	k := t.String() + "=>" + it.String()
	e.mu.Lock()
	v, ok := e.icache[k]
	e.mu.Unlock()
	if ok {
		return v
	}
	v = types.Implements(t, it.Underlying().(*types.Interface))
	e.mu.Lock()
	e.icache[k] = v
	e.mu.Unlock()
	return v
}

func (e *Engine) posStr(p gotoken.Pos, fn *ssa.Function) string {
	if p.IsValid() {
		ps := e.fset.Position(p)
		return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
	}
	return fn.String()
}

func (e *Engine) trackFn(fn *ssa.Function) bool {
	pk := fn.Pkg
	if pk == nil {
		if fn.Parent() != nil {
			pk = fn.Parent().Pkg
		}
	}
	if pk == nil {
		return false
	}
	p := pk.Pkg.Path()
	return p == modPath+"/sign" || p == modPath+"/src" || p == modPath+"/internal/pb"
}

// ---- lazy global initialisation ----

type initSlice struct {
	ins []ssa.Instruction
}

var initSlices sync.Map // *ssa.Global -> []ssa.Instruction

func (m *Machine) initGlobal(g *ssa.Global) {
	if g.Pkg == nil {
		return
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return
	}
	var ins []ssa.Instruction
	if v, ok := initSlices.Load(g); ok {
		ins = v.([]ssa.Instruction)
	} else {
		ins = sliceInit(init, g)
		initSlices.Store(g, ins)
	}
	if len(ins) == 0 {
		return
	}
	c := &code{fn: init}
	cp := &compiler{slots: map[ssa.Value]int{}, fn: init, c: c}
	var fs []instrF
	for _, i := range ins {
		if f := cp.instr(i); f != nil {
			fs = append(fs, f)
		}
	}
	fr := &frame{m: m, fn: init, code: c, regs: make([]Value, len(cp.slots)), prev: -1}
	m.stack = append(m.stack, init)
	for _, f := range fs {
		f(fr)
	}
	m.stack = m.stack[:len(m.stack)-1]
}

func sliceInit(init *ssa.Function, g *ssa.Global) []ssa.Instruction {
	need := map[ssa.Instruction]bool{}
	rootOf := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			default:
				return v
			}
		}
	}
	var work []ssa.Instruction
	add := func(i ssa.Instruction) {
		if i != nil && !need[i] {
			need[i] = true
			work = append(work, i)
		}
	}
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && rootOf(s.Addr) == ssa.Value(g) {
				add(i)
			}
		}
	}
	addrRoots := map[ssa.Value]bool{}
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		for _, op := range i.Operands(nil) {
			if *op == nil {
				continue
			}
			if d, ok := (*op).(ssa.Instruction); ok {
				add(d)
			}
		}
		// memory roots: include stores through derived addresses / map updates
		if v, ok := i.(ssa.Value); ok {
			switch v.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
				if !addrRoots[v] {
					addrRoots[v] = true
					var visit func(ssa.Value)
					visit = func(a ssa.Value) {
						for _, r := range *a.Referrers() {
							switch y := r.(type) {
							case *ssa.FieldAddr:
								visit(y)
							case *ssa.IndexAddr:
								if y.X == a {
									visit(y)
								}
							case *ssa.Slice:
							case *ssa.Store:
								if y.Addr == a {
									add(y)
								}
							case *ssa.MapUpdate:
								if y.Map == a {
									add(y)
								}
							}
						}
					}
					visit(v)
				}
			}
		}
	}
	var out []ssa.Instruction
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			if need[i] {
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				out = append(out, i)
			}
		}
	}
	return out
}
