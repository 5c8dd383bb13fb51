package gosym

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded source.
type Program struct {
	Prog      *ssa.Program
	Pkgs      []*packages.Package
	byPath    map[string]*ssa.Package
	order     []*ssa.Package
	overrides map[string]*ssa.Function
	rtErrType types.Type
	cand      sync.Map
	Debug     bool
	ovNames   []string
	ExactHash bool // whether new machines compute hash codes as they are, instead of one for all
}

const modelsPath = "github.com/lyraproj/hiera/zzverif/models"
const symPath = "github.com/lyraproj/hiera/zzverif/sym"

// Load loads and builds the given package patterns from dir.
func Load(dir string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay,
		Env: append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, append(patterns, modelsPath)...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Pkgs: pkgs, byPath: map[string]*ssa.Package{}, overrides: map[string]*ssa.Function{}}
	for _, sp := range prog.AllPackages() {
		p.byPath[sp.Pkg.Path()] = sp
	}
	seen := map[string]bool{}
	var visit func(pk *packages.Package)
	visit = func(pk *packages.Package) {
		if seen[pk.PkgPath] {
			return
		}
		seen[pk.PkgPath] = true
		keys := make([]string, 0, len(pk.Imports))
		for k := range pk.Imports {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			visit(pk.Imports[k])
		}
		if sp := p.byPath[pk.PkgPath]; sp != nil {
			p.order = append(p.order, sp)
		}
	}
	var models *packages.Package
	for _, pk := range pkgs {
		visit(pk)
		if pk.PkgPath == modelsPath {
			models = pk
		}
	}
	if models == nil {
		return nil, fmt.Errorf("no models package")
	}
	msp := p.byPath[modelsPath]
	for _, f := range models.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				if n, ok := strings.CutPrefix(strings.Replace(c.Text, "// override", "//override", 1), "//override:"); ok {
					n = strings.TrimSpace(n)
					fn := msp.Func(fd.Name.Name)
					if fn == nil {
						return nil, fmt.Errorf("no model function %s", fd.Name.Name)
					}
					p.overrides[n] = fn
					p.ovNames = append(p.ovNames, n)
				}
			}
		}
	}
	if t := msp.Type("RuntimeError"); t != nil {
		p.rtErrType = t.Type()
	}
	return p, nil
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (p *Program) funcByName(pkg, name string) *ssa.Function {
	sp := p.byPath[pkg]
	if sp == nil {
		panic(engineErr("package %s is not loaded", pkg))
	}
	f := sp.Func(name)
	if f == nil {
		panic(engineErr("no function %s.%s", pkg, name))
	}
	return f
}

// Func finds a function for use as an entry point.
func (p *Program) Func(pkg, name string) *ssa.Function {
	if sp := p.byPath[pkg]; sp != nil {
		return sp.Func(name)
	}
	return nil
}

// skipInit lists packages whose initialisation is not executed; their variables are unusable unless the
// model replaces the functions that use them.
func skipInit(path string) bool {
	for _, p := range []string{"runtime", "internal/", "syscall", "net", "crypto", "reflect", "golang.org/x/sys",
		"github.com/sirupsen", "github.com/spf13/viper", "vendor/", "encoding/", "compress/", "mime",
		"math/rand", "os/", "hash", "html", "text/template", "log", "testing", "flag", "iter", "unique", "weak", "golang.org/x/", "google.golang.org",
		"github.com/hashicorp", "database", "math/big", "go/"} {
		if path == p || strings.HasPrefix(path, p) && (strings.HasSuffix(p, "/") || strings.HasPrefix(path, p+"/")) {
			switch path {
			case "vendor/golang.org/x/net/http/httpguts", "net/netip", "log", "os/exec", "os/signal", "encoding/hex", "flag", "unique":
				return false
			}
			if path == "internal/oserror" || path == "internal/strconv" || path == "internal/testlog" || path == "net/url" || path == "encoding/base64" || path == "net/textproto" || path == "net/http" {
				return path == "net/http"
			}
			return true
		}
	}
	return false
}

// Init initialises all packages on this machine.
func (m *Machine) Init() {
	g := &G{id: 0, m: m, resume: make(chan struct{}, 1)}
	m.gs = []*G{g}
	m.cur = g
	m.side = map[string]any{}
	for _, sp := range m.P.order {
		init := sp.Func("init")
		if init == nil {
			continue
		}
		path := sp.Pkg.Path()
		if skipInit(path) {
			m.poisonGlobals(sp, init)
			continue
		}
		m.runInit(path, init)
	}
	m.gs = nil
	m.initDone = true
	m.steps = 0
}

// poisonGlobals marks the globals that the skipped initialiser would have set.
func (m *Machine) poisonGlobals(sp *ssa.Package, init *ssa.Function) {
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				a := st.Addr
				for {
					switch x := a.(type) {
					case *ssa.FieldAddr:
						a = x.X
						continue
					case *ssa.IndexAddr:
						a = x.X
						continue
					}
					break
				}
				if g, ok := a.(*ssa.Global); ok && g.Name() != "init$guard" {
					*m.global(g) = &poison{g.String()}
				}
			}
		}
	}
}

// runInit executes a package initialiser; a statement that cannot be executed leaves its result unusable
// and the rest is executed all the same.
func (m *Machine) runInit(path string, fn *ssa.Function) {
	f := m.fn(fn)
	if !f.compiled {
		m.compile(f)
	}
	fr := &frame{m: m, g: m.cur, fn: f, regs: make([]Value, f.nregs)}
	b := 0
	for b >= 0 {
		cb := &f.blocks[b]
		// map compiled instructions back to destination registers
		var ins []ssa.Instruction
		for _, i := range fn.Blocks[b].Instrs {
			switch i.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Panic:
			default:
				ins = append(ins, i)
			}
		}
		for k, in := range cb.ins {
			if c, ok := ins[k].(*ssa.Call); ok {
				if cf, ok := c.Call.Value.(*ssa.Function); ok && cf.Name() == "init" && cf.Synthetic != "" && cf != fn {
					continue
				}
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						msg := ""
						switch r := r.(type) {
						case abortPath:
							msg = r.kind + ": " + r.msg
						case fatalErr:
							msg = r.kind + ": " + r.msg
						case *targetPanic:
							msg = "panic: " + m.panicText(r)
						default:
							msg = fmt.Sprint(r)
							if m.P.Debug {
								panic(r)
							}
						}
						m.cur.depth = 0
						m.initErrs = append(m.initErrs, path+": "+ins[k].String()+": "+msg)
						if v, ok := ins[k].(ssa.Value); ok {
							c := compilerRegs(fn)
							fr.regs[c[v]] = &poison{path + "." + v.Name()}
						}
						if st, ok := ins[k].(*ssa.Store); ok {
							if g, ok := st.Addr.(*ssa.Global); ok {
								*m.global(g) = &poison{g.String()}
							}
						}
					}
				}()
				in(fr)
			}()
		}
		b = cb.term(fr)
	}
}

func compilerRegs(fn *ssa.Function) map[ssa.Value]int {
	r := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		r[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		r[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				r[v] = n
				n++
			}
		}
	}
	return r
}
