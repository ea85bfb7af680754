package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/aiq/tok"
const hdir = "zzverif" // virtual directory of the harness packages inside /repo
const vpPath = modPath + "/" + hdir + "/vp"
const modelPath = modPath + "/" + hdir + "/model"
const propsPath = modPath + "/" + hdir + "/props"

// Loaded is the program under check, shared by all workers.
type Loaded struct {
	prog           *ssa.Program
	pkgs           []*ssa.Package
	byPath         map[string]*ssa.Package
	queryTimeoutMS int
	maxSteps       int64
	exactQuote     bool // quoting symbolic text is executed
	maxSamples     int
	xcheck         bool
	xcheckMax      int
	thorough       bool
	repo, verif    string
	overlayFile    string
	model          map[string]*ssa.Function
	errType        types.Type
}

// overlayMap collects the harness files and where they appear to lie.
func overlayMap(repo, verif string) (map[string]string, error) {
	m := map[string]string{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		m[filepath.Join(repo, hdir, rel)] = p
		return nil
	})
	return m, err
}

func writeOverlay(dir string, m map[string]string) (string, error) {
	b, _ := json.Marshal(map[string]interface{}{"Replace": m})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, b, 0644)
}

func Load(repo, verif string) (*Loaded, error) {
	om, err := overlayMap(repo, verif)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for k, v := range om {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	pk, err := packages.Load(cfg, modPath, modPath+"/grammar", propsPath, vpPath, modelPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("the tree does not compile with the harness:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	L := &Loaded{prog: prog, byPath: map[string]*ssa.Package{}, repo: repo, verif: verif, model: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		L.byPath[p.Pkg.Path()] = p
	}
	if mp := L.byPath[modelPath]; mp != nil {
		for n, m := range mp.Members {
			if f, ok := m.(*ssa.Function); ok {
				L.model[n] = f
			}
		}
	}
	L.errType = types.Universe.Lookup("error").Type()
	L.queryTimeoutMS = 20000
	L.maxSteps = 1500000
	L.maxSamples = 6
	return L, nil
}

// harnesses lists the entry points of a property.
func (L *Loaded) harnesses(id string) []*ssa.Function {
	var r []*ssa.Function
	for n, m := range L.byPath[propsPath].Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, id+"_") && len(f.Params) == 0 {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}
