package main

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Engine holds the program under analysis.
type Engine struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	main      []*ssa.Package
	rtErr     types.Type
	methCache sync.Map
	implCache sync.Map
	typeMu    sync.Mutex
	typeIDs   typeutil.Map
	rtypes    typeutil.Map
	nTypes    int
	verbose   bool
	byPath    map[string]*ssa.Package
	exts      map[string]extFn
	msets     typeutil.MethodSetCache
	modDir    string
	rtypePtr  types.Type
	thorough  bool
	embedded  map[string][]embFile
}

// embFile is a file or folder embedded in a package.
type embFile struct{ name, data string }

// readEmbedded reads the files a package embeds, in the order of embed.FS.
func readEmbedded(p *packages.Package) ([]embFile, error) {
	if len(p.EmbedFiles) == 0 || len(p.GoFiles) == 0 {
		return nil, nil
	}
	dir := filepath.Dir(p.GoFiles[0])
	var out []embFile
	seen := map[string]bool{}
	for _, f := range p.EmbedFiles {
		rel, err := filepath.Rel(dir, f)
		if err != nil {
			return nil, err
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		out = append(out, embFile{rel, string(b)})
		for d := filepath.Dir(rel); d != "." && !seen[d]; d = filepath.Dir(d) {
			seen[d] = true
			out = append(out, embFile{d + "/", ""})
		}
	}
	split := func(n string) (string, string) {
		n = strings.TrimSuffix(n, "/")
		i := strings.LastIndexByte(n, '/')
		if i < 0 {
			return ".", n
		}
		return n[:i], n[i+1:]
	}
	sort.Slice(out, func(i, j int) bool {
		di, ei := split(out[i].name)
		dj, ej := split(out[j].name)
		return di < dj || di == dj && ei < ej
	})
	return out, nil
}

// embedValue is the embed.FS of a package.
func (e *Engine) embedValue(t types.Type, files []embFile) Value {
	st := t.Underlying().(*types.Struct)
	sl := st.Field(0).Type().(*types.Pointer).Elem().(*types.Slice)
	arr := make([]Value, len(files))
	for i, f := range files {
		x := zero(sl.Elem()).(Struct)
		x[0], x[1] = mkStr(f.name), mkStr(f.data)
		arr[i] = x
	}
	var cell Value = &Slice{arr: arr}
	return Struct{&cell}
}

// loadProgram loads packages of the harness module.
func loadProgram(dir string, overlay map[string][]byte, patterns []string, env []string) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedEmbedFiles,
		Dir:        dir,
		Env:        env,
		Overlay:    overlay,
		BuildFlags: []string{"-tags=symx"},
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			// std packages may use newer compiler features; only report module code
			if p.Module != nil || len(p.GoFiles) == 0 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	embedded := map[string][]embFile{}
	packages.Visit(initial, nil, func(p *packages.Package) {
		if p.Module == nil {
			return
		}
		fs, err := readEmbedded(p)
		if err != nil {
			errs = append(errs, err.Error())
		}
		if fs != nil {
			embedded[p.PkgPath] = fs
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	e := &Engine{prog: prog, pkgs: initial, main: spkgs, byPath: map[string]*ssa.Package{}, modDir: dir, embedded: embedded}
	for _, p := range prog.AllPackages() {
		e.byPath[p.Pkg.Path()] = p
	}
	if rt := e.byPath["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			e.rtErr = t.Type()
		}
	}
	e.exts = map[string]extFn{}
	registerExternals(e)
	registerReflect(e)
	registerV(e)
	extraV(e)
	return e, nil
}

// goEnv is the environment of the pinned toolchain.
func goEnv() []string {
	var out []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOROOT", "GOWORK", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "PATH", "GO111MODULE":
			continue
		}
		out = append(out, kv)
	}
	path := "/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
	out = append(out, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod")
	return out
}

func runCmd(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	b, err := c.CombinedOutput()
	return string(b), err
}

func (e *Engine) typeID(t types.Type) int {
	e.typeMu.Lock()
	defer e.typeMu.Unlock()
	if v := e.typeIDs.At(t); v != nil {
		return v.(int)
	}
	e.nTypes++
	e.typeIDs.Set(t, e.nTypes)
	return e.nTypes
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := e.implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	e.implCache.Store(k, r)
	return r
}

func (e *Engine) stdFunc(pkg, name string) *ssa.Function {
	p := e.byPath[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (e *Engine) external(fn *ssa.Function) extFn {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	name := o.String()
	if x, ok := e.exts[name]; ok {
		return x
	}
	// package init functions
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Parent() == nil {
		pk := fn.Pkg
		if e.skipInit(pk.Pkg.Path()) {
			return func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value { return nil }
		}
	}
	return nil
}

// isStd reports whether the import path is from the standard library.
func isStd(path string) bool {
	first := path
	if i := strings.IndexByte(path, '/'); i >= 0 {
		first = path[:i]
	}
	return !strings.Contains(first, ".") && first != "verifh"
}

var skipInitPkgs = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "net": true, "reflect": true, "internal/reflectlite": true,
	"runtime/debug": true, "sync": true, "sync/atomic": true, "unsafe": true, "os/signal": true, "crypto": true,
	"net/http": true, "crypto/rand": true, "math/rand": true, "math/rand/v2": true, "log": true, "testing": true, "os/exec": true,
	"flag": true, "path/filepath": true, "io/fs": false, "embed": false, "text/template": false, "hash/maphash": true,
	"log/slog": true, "time": false, "context": false, "net/url": false, "mime": true, "go/build": true, "encoding/base64": false,
	"io/ioutil": true, "runtime/pprof": true, "runtime/trace": true, "iter": true, "unique": true, "weak": true,
	"go/scanner": false, "go/ast": false, "go/parser": false, "go/token": false, "go/types": false, "go/constant": false, "go/version": false, "go/build/constraint": false,
	"encoding/gob": true, "html": true, "html/template": true, "text/template/parse": false,
}

func (e *Engine) skipInit(path string) bool {
	if !isStd(path) {
		for _, p := range []string{"github.com/lerenn/", "verifh", "github.com/iancoleman/strcase", "github.com/ghodss/yaml", "gopkg.in/yaml.v2", "github.com/google/uuid",
			"github.com/nats-io/", "github.com/segmentio/kafka-go", "github.com/go-playground/validator"} {
			if strings.HasPrefix(path, p) {
				return false
			}
		}
		return true
	}
	if v, ok := skipInitPkgs[path]; ok {
		return v
	}
	if strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "vendor/") ||
		strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "net/") || strings.HasPrefix(path, "go/") || strings.HasPrefix(path, "compress/") ||
		strings.HasPrefix(path, "golang.org/") || strings.HasPrefix(path, "debug/") {
		switch path {
		case "internal/fmtsort", "internal/oserror", "internal/stringslite", "internal/types/errors", "internal/gover", "internal/lazyregexp", "internal/itoa", "internal/unsafeheader":
			return false
		}
		return true
	}
	return false
}

// persistent packages are initialised once per machine.
func (e *Engine) persistent(p *ssa.Package) bool {
	path := p.Pkg.Path()
	return isStd(path) || path == "github.com/iancoleman/strcase" || strings.HasPrefix(path, validatorPkg)
}

const validatorPkg = "github.com/go-playground/validator"

// caches are globals of persistent packages that are emptied for each path.
var caches = map[string]bool{"oneofValsCache": true, "oneofValsCacheRWLock": true}

// initFresh (re)initialises the globals of module packages for a new path and
// runs package initialisers in dependency order.
func (m *Machine) initFresh(g *G, root *ssa.Package) {
	for gl := range m.globals {
		if gl.Pkg == nil || !m.eng.persistent(gl.Pkg) {
			delete(m.globals, gl)
		} else if caches[gl.Name()] && strings.HasPrefix(gl.Pkg.Pkg.Path(), validatorPkg) {
			p := m.globals[gl]
			if mv, ok := (*p).(*MapV); ok {
				*p = newMap(mv.keyT)
			} else {
				*p = zero(deref(gl.Type()))
			}
		}
	}
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		sp := m.eng.prog.Package(p)
		if sp == nil || m.eng.skipInit(p.Path()) {
			return
		}
		if m.eng.persistent(sp) {
			if m.inited[sp] {
				return
			}
			m.inited[sp] = true
			m.inInit = true
		}
		if f := sp.Func("init"); f != nil {
			m.runInit(g, sp, f)
		}
		m.inInit = false
	}
	visit(root.Pkg)
	m.steps = 0
}

// runInit executes a package initialiser; nested init calls are no-ops since
// dependencies were visited already.
func (m *Machine) runInit(g *G, p *ssa.Package, f *ssa.Function) {
	m.call(g, nil, f, nil, nil)
}

// exportedMethod finds an exported method of a type or nil.
func (e *Engine) exportedMethod(t types.Type, name string) *ssa.Function {
	ms := e.msets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}
