package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/SKAARHOJ/rawpanel-lib"
const suPath = "github.com/SKAARHOJ/ibeam-lib-utils"
const symPath = modPath + "/zzverif/zzsym"

// Program is the loaded and SSA-built code: /repo plus the harness overlay.
type Program struct {
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	harness *ssa.Package
	sizes   types.Sizes

	runtimeErrT types.Type
	errStringT  types.Type // *errors.errorString
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// overlayFiles maps the virtual file names under /repo/zzverif to the harness sources.
func overlayFiles(dirs ...string) (map[string]string, error) {
	m := map[string]string{}
	for _, d := range dirs {
		if d == cbindDir {
			g, err := cbindFiles()
			if err != nil {
				return nil, err
			}
			for k, v := range g {
				m[k] = v
			}
			continue
		}
		src := filepath.Join(verifDir(), "harness", d)
		es, err := os.ReadDir(src)
		if err != nil {
			return nil, err
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				m[filepath.Join(repoDir(), "zzverif", d, e.Name())] = filepath.Join(src, e.Name())
			}
		}
	}
	return m, nil
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("GOFLAGS", "-mod=mod -buildvcs=false")
	set("GOPROXY", "off")
	set("GOTOOLCHAIN", "local")
	set("GOWORK", "off")
	set("CGO_ENABLED", "0")
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	return env
}

func Load(hdir string) (*Program, error) {
	ov, err := overlayFiles(harnessDirs(hdir)...)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for k, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repoDir(),
		Env:     goEnv(),
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, modPath+"/zzverif/"+hdir)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{fset: prog.Fset, prog: prog, pkgs: map[string]*ssa.Package{}}
	for _, pk := range prog.AllPackages() {
		p.pkgs[pk.Pkg.Path()] = pk
	}
	p.harness = sp[0]
	p.sizes = pkgs[0].TypesSizes
	prog.Build()
	if rt := p.pkgs["runtime"]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			p.runtimeErrT = o.Type()
		}
	}
	if e := p.pkgs["errors"]; e != nil {
		if o := e.Pkg.Scope().Lookup("errorString"); o != nil {
			p.errStringT = types.NewPointer(o.Type())
		}
	}
	if p.runtimeErrT == nil || p.errStringT == nil {
		return nil, fmt.Errorf("runtime types not found")
	}
	return p, nil
}

func harnessDirs(h string) []string {
	d := []string{h, "zzsym", "spec"}
	if b, err := os.ReadFile(filepath.Join(verifDir(), "harness", h, "uses")); err == nil {
		d = append(d, strings.Fields(string(b))...)
	}
	return d
}

var interpStd = map[string]bool{
	"strings": true, "strconv": true, "bytes": true, "unicode": true, "unicode/utf8": true, "sort": true, "slices": true, "maps": true,
	"math/bits": true, "math": true, "encoding/binary": true, "errors": true, "internal/bytealg": true, "internal/stringslite": true, "cmp": true, "iter": true,
	"internal/strconv": true, "internal/byteorder": true, "internal/itoa": true, "image": true, "image/color": true, "image/draw": true, "image/internal/imageutil": true,
	"unicode/utf16": true, "bufio": true, "io": true, "context": true, "encoding/base64": true, "encoding/hex": true,
	"encoding/xml": true, "image/color/palette": true, "math/cmplx": true, "container/list": true, "container/heap": true, "io/fs": false,
	"golang.org/x/exp/slices": true, "golang.org/x/exp/maps": true, "golang.org/x/exp/constraints": true, "github.com/subchen/go-xmldom": true,
	"go.uber.org/atomic": true, suPath: true,
}

func (p *Program) interpretable(path string) bool {
	if strings.HasPrefix(path, modPath) {
		return true
	}
	return interpStd[path]
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		if o := fn.Origin(); o != nil && o != fn {
			return p.inRepo(o)
		}
		if par := fn.Parent(); par != nil {
			return p.inRepo(par)
		}
		return false
	}
	path := fn.Pkg.Pkg.Path()
	return strings.HasPrefix(path, modPath) && !strings.Contains(path, "/zzverif/") || path == suPath
}

func (p *Program) implements(t types.Type, it *types.Interface) bool { return types.Implements(t, it) }

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

// typeOf finds a named type.
func (p *Program) typeOf(pkg, name string) types.Type {
	pk := p.pkgs[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
