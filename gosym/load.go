package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is one harness function with its directives.
type Harness struct {
	Name  string
	Fn    *ssa.Function
	Pkg   string // import path
	Props []string
	Tier  string // "", quick, thorough
	Time  int    // seconds
	TimeT int    // seconds, thorough tier
	Shard string
	SLo   int
	SHi   int
	SHiT  int
	Sched bool // schedule exploration harness
	NoNat bool // no native replay possible
	Reach []string
	Doc   string
}

type Prog struct {
	mu      sync.Mutex
	fset    *token.FileSet
	prog    *ssa.Program
	globals []*ssa.Global
	rtErrT  types.Type
	shims   map[string]*ssa.Function
	names   map[string]bool
	repoMod string
	repo    string
	sizes   types.Sizes
	tier    int
	hs      map[string]*Harness
	allow   map[string]bool
	overlay map[string]bool // harness files
	tkeys   map[types.Type]string
}

const repoMod = "github.com/flawedmatrix/gocryptsftp"

// Packages outside the repository whose source is not interpreted: the runtime and
// what reaches below it, reflection, cryptography (modelled), the network and formatting.
var denyPkgs = []string{
	"runtime", "internal/runtime", "reflect", "internal/reflectlite", "internal/abi", "internal/cpu", "internal/race", "internal/godebug", "unsafe", "unique", "weak",
	"crypto", "vendor/golang.org", "golang.org/x/crypto", "golang.org/x/sys", "golang.org/x/term", "net", "fmt", "log", "testing", "os/exec", "os/signal", "os/user", "plugin",
	"encoding/json", "encoding/gob", "encoding/xml", "encoding/asn1", "compress", "archive", "go", "text/template", "html/template", "expvar", "flag", "database", "debug",
}

// exceptions to denyPkgs
var allowPkgs = []string{
	"crypto/subtle", "crypto/internal/fips140/subtle", "crypto/hmac", "crypto/internal/constanttime", "golang.org/x/crypto/hkdf", "net/url", "net/netip", "internal/runtime/atomic", "net/textproto",
}

var allowFuncs = map[string]bool{
	"net.SplitHostPort": true, "net.JoinHostPort": true,
}

func (p *Prog) allowed(path string) bool {
	if path == repoMod || strings.HasPrefix(path, repoMod+"/") {
		return true
	}
	if p.allow[path] {
		return true
	}
	for _, d := range denyPkgs {
		if path == d || strings.HasPrefix(path, d) && path[len(d)] == '/' {
			return false
		}
	}
	return true
}

func (p *Prog) known(name string) bool { return p.names[name] }

func (p *Prog) countModel(c *Fn) bool {
	return c.pkg == nil || !strings.HasPrefix(c.pkg.Pkg.Path(), repoMod+"/zzverif")
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return ""
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Load type-checks /repo's current tree with the harness overlay and builds SSA.
func Load(repo string, overlay map[string][]byte, patterns []string) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Fset:    fset,
		Overlay: overlay,
		Env:     os.Environ(),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoMod) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{fset: fset, prog: prog, shims: map[string]*ssa.Function{}, names: map[string]bool{}, repoMod: repoMod, repo: repo,
		sizes: types.SizesFor("gc", "amd64"), hs: map[string]*Harness{}, allow: map[string]bool{}, tkeys: map[types.Type]string{}, overlay: map[string]bool{}}
	for f := range overlay {
		p.overlay[f] = true
	}
	for _, a := range allowPkgs {
		p.allow[a] = true
	}
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, sp := range all {
		var ns []string
		for n := range sp.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				p.globals = append(p.globals, g)
			}
			if f, ok := sp.Members[n].(*ssa.Function); ok {
				p.names[f.String()] = true
			}
			if t, ok := sp.Members[n].(*ssa.Type); ok {
				if nt, ok := t.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						p.names[nt.Method(i).FullName()] = true
					}
				}
			}
		}
	}
	vrt := prog.ImportedPackage(vrtPath)
	if vrt == nil {
		return nil, fmt.Errorf("support package not loaded")
	}
	p.rtErrT = vrt.Type("RuntimeError").Type()
	for name, target := range shimTable {
		f := vrt.Func(target)
		if f == nil {
			return nil, fmt.Errorf("shim %s missing", target)
		}
		p.shims[name] = f
	}
	// harness discovery
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, repoMod) {
			return
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") || fd.Doc == nil {
					continue
				}
				sp := prog.Package(pk.Types)
				h := &Harness{Name: fd.Name.Name, Fn: sp.Func(fd.Name.Name), Pkg: pk.PkgPath, Time: 120, TimeT: 600}
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if !strings.HasPrefix(t, "verif:") {
						h.Doc += strings.TrimSpace(t) + " "
						continue
					}
					for _, kv := range strings.Fields(t[6:]) {
						k, v := kv, ""
						if i := strings.IndexByte(kv, '='); i >= 0 {
							k, v = kv[:i], kv[i+1:]
						}
						switch k {
						case "prop":
							h.Props = strings.Split(v, ",")
						case "tier":
							h.Tier = v
						case "time":
							h.Time, _ = strconv.Atoi(v)
						case "timet":
							h.TimeT, _ = strconv.Atoi(v)
						case "sched":
							h.Sched = true
						case "nonative":
							h.NoNat = true
						case "reach":
							h.Reach = strings.Split(v, ",")
						case "shard": // name:lo..hi or name:lo..hiq/hit
							i := strings.IndexByte(v, ':')
							h.Shard = v[:i]
							r := strings.Split(v[i+1:], "..")
							h.SLo, _ = strconv.Atoi(r[0])
							hh := strings.Split(r[1], "/")
							h.SHi, _ = strconv.Atoi(hh[0])
							h.SHiT = h.SHi
							if len(hh) > 1 {
								h.SHiT, _ = strconv.Atoi(hh[1])
							}
						default:
							panic("directive " + k)
						}
					}
				}
				p.hs[h.Name] = h
			}
		}
	})
	return p, nil
}

// shimTable maps functions outside the repository to interpreted stand-ins in vrt.
var shimTable = map[string]string{
	"fmt.Sprintf":                    "Sprintf",
	"fmt.Sprint":                     "Sprint",
	"fmt.Sprintln":                   "Sprintln",
	"fmt.Errorf":                     "Errorf",
	"fmt.Fprintf":                    "Fprintf",
	"fmt.Fprint":                     "Fprint",
	"fmt.Fprintln":                   "Fprintln",
	"log.Panic":                      "LogPanic",
	"log.Panicf":                     "LogPanicf",
	"log.Panicln":                    "LogPanicln",
	"(*log.Logger).Panic":            "LoggerPanic",
	"(*log.Logger).Panicf":           "LoggerPanicf",
	"errors.Is":                      "ErrorsIs",
	"(*sync.Cond).Wait":              "CondWait",
	"(*sync.Pool).Get":               "PoolGet",
	"(*sync.Pool).Put":               "PoolPut",
	"sort.Slice":                     "SortSlice",
	"sort.SliceStable":               "SortSlice",
	"errors.As":                      "ErrorsAs",
	"context.WithValue":              "ContextWithValue",
	"github.com/dchest/siphash.Hash": "SipHash",
	"(*sync.Map).Load":               "SyncMapLoad",
	"(*sync.Map).Store":              "SyncMapStore",
	"(*sync.Map).Delete":             "SyncMapDelete",
	"(*sync.Map).LoadOrStore":        "SyncMapLoadOrStore",
	"(*sync.Map).Range":              "SyncMapRange",
	"(*sync.Map).LoadAndDelete":      "SyncMapLoadAndDelete",
}
