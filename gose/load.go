package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/smartbch/moeingads"

var repoDir = "/repo"
var verifDir = "/verif"

func trimRepo(s string) string { return strings.TrimPrefix(s, repoDir+"/") }

// importMap replaces environment packages by models with the same API.
var importMap = map[string]string{
	"os":                           modPath + "/zzv/vos",
	"io/ioutil":                    modPath + "/zzv/vioutil",
	"github.com/tecbot/gorocksdb":  modPath + "/zzv/vrocks",
	"github.com/minio/sha256-simd": modPath + "/zzv/vsha",
	"crypto/sha256":                modPath + "/zzv/vsha",
	"github.com/mmcloughlin/meow":  modPath + "/zzv/vmeow",
}
var importName = map[string]string{
	"os": "os", "io/ioutil": "ioutil", "github.com/tecbot/gorocksdb": "gorocksdb",
	"github.com/minio/sha256-simd": "sha256", "crypto/sha256": "sha256", "github.com/mmcloughlin/meow": "meow",
}

// repoPkgDirs are the packages of the repository that are loaded.
var repoPkgDirs = []string{".", "datatree", "indextree", "indextree/b", "indextree/b/cppbtree", "metadb", "store", "store/types", "store/rabbit", "types"}

type Harness struct {
	Name     string // function name
	Pkg      string // directory relative to the repo
	Prop     string
	Tier     string // quick, thorough, both
	Budget   int    // seconds, quick
	TBudget  int    // seconds, thorough
	Real     bool   // replay with the real environment too
	NCPU     int
	File     string
	Doc      string
	Reach    []string
	thorough bool
	Known    string
	Consts   map[string]string // constants of the package that are given another value
}

func (h *Harness) ncpu() int {
	if h.NCPU > 0 {
		return h.NCPU
	}
	return 1
}

type Loaded struct {
	fset        *token.FileSet
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package
	buildMu     sync.Mutex
	built       map[*ssa.Package]bool
	errType     types.Type
	debugPanics bool
	redirects   map[string]*ssa.Function
	msets       sync.Mutex
	initOK      map[string]bool
}

func (l *Loaded) inRepo(p string) bool {
	return (p == modPath || strings.HasPrefix(p, modPath+"/")) && !strings.HasPrefix(p, modPath+"/zzv/")
}

var initAllowed = map[string]bool{"errors": false, "io": true, "bytes": true, "strings": true, "sort": true, "strconv": true,
	"encoding/binary": true, "unicode/utf8": true, "unicode": false, "math/bits": true, "path/filepath": false, "container/list": true}

func (l *Loaded) initPkg(p *ssa.Package) bool {
	path := p.Pkg.Path()
	if l.inRepo(path) || strings.HasPrefix(path, modPath+"/zzv/") {
		return true
	}
	return initAllowed[path]
}

func (l *Loaded) build(fn *ssa.Function) {
	l.buildMu.Lock()
	defer l.buildMu.Unlock()
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p != nil && !l.built[p] {
		l.built[p] = true
		p.Build()
	}
}

func (l *Loaded) redirect(name string) *ssa.Function { return l.redirects[name] }

func (l *Loaded) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	l.buildMu.Lock()
	defer l.buildMu.Unlock()
	ms := l.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return l.prog.MethodValue(sel)
}

// Overlay is the set of virtual files laid over the repository.
type Overlay struct {
	files     map[string][]byte // absolute path -> content
	harnesses []*Harness
	dropped   []string // harness files left out (they do not fit the tree)
}

var dirRe = regexp.MustCompile(`(?m)^//verif: (.*)$`)

// rewriteImports redirects environment imports of a Go source file, keeping
// line numbers.
func rewriteImports(path string, src []byte) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ImportsOnly)
	if err != nil {
		return nil, false, err
	}
	type edit struct {
		from, to int
		s        string
	}
	var eds []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		np, ok := importMap[p]
		if !ok {
			continue
		}
		from, to := fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset
		s := strconv.Quote(np)
		if im.Name == nil {
			s = importName[p] + " " + s
		}
		eds = append(eds, edit{from, to, s})
	}
	if len(eds) == 0 {
		return src, false, nil
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].from > eds[j].from })
	out := append([]byte(nil), src...)
	for _, e := range eds {
		out = append(out[:e.from:e.from], append([]byte(e.s), out[e.to:]...)...)
	}
	return out, true, nil
}

// buildOverlay collects rewritten sources, models and the harness files whose
// harnesses are wanted. mode "model" rewrites environment imports, "real"
// keeps them.
func buildOverlay(model bool, want func(h *Harness) bool) (*Overlay, error) {
	ov := &Overlay{files: map[string][]byte{}}
	for _, d := range repoPkgDirs {
		dir := filepath.Join(repoDir, d)
		ents, err := os.ReadDir(dir)
		if err != nil {
			continue
		}
		for _, en := range ents {
			n := en.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(dir, n)
			src, err := os.ReadFile(p)
			if err != nil {
				return nil, err
			}
			if model {
				out, ch, err := rewriteImports(p, src)
				if err != nil {
					return nil, err
				}
				if ch {
					ov.files[p] = out
				}
			}
		}
	}
	mdir := filepath.Join(verifDir, "models")
	err := filepath.Walk(mdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(mdir, p)
		b, err := os.ReadFile(p)
		if err == nil {
			ov.files[filepath.Join(repoDir, "zzv", rel)] = b
		}
		return err
	})
	if err != nil {
		return nil, err
	}
	hdir := filepath.Join(verifDir, "harness")
	perPkg := map[string][]*Harness{}
	lib := map[string]bool{}
	err = filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(hdir, p)
		d := filepath.Dir(rel)
		if d == "root" {
			d = "."
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		hs, err := parseHarnesses(p, d, b)
		if err != nil {
			return err
		}
		isLib := strings.HasPrefix(filepath.Base(p), "lib")
		any := isLib
		for _, h := range hs {
			if want(h) {
				any = true
				perPkg[d] = append(perPkg[d], h)
				ov.harnesses = append(ov.harnesses, h)
			}
		}
		if any {
			if model {
				if out, ch, err := rewriteImports(p, b); err == nil && ch {
					b = out
				}
			}
			ov.files[filepath.Join(repoDir, d, "zz_verif_"+filepath.Base(p))] = b
			lib[d] = true
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	if err := ov.setConsts(); err != nil {
		return nil, err
	}
	return ov, nil
}

// setConsts gives constants the values the harnesses ask for.
func (ov *Overlay) setConsts() error {
	want := map[string]map[string]string{}
	for _, h := range ov.harnesses {
		for k, v := range h.Consts {
			if want[h.Pkg] == nil {
				want[h.Pkg] = map[string]string{}
			}
			if o, ok := want[h.Pkg][k]; ok && o != v {
				return fmt.Errorf("two values for the constant %s", k)
			}
			want[h.Pkg][k] = v
		}
	}
	for d, m := range want {
		dir := filepath.Join(repoDir, d)
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, en := range ents {
			p := filepath.Join(dir, en.Name())
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				continue
			}
			src, ok := ov.files[p]
			if !ok {
				if src, err = os.ReadFile(p); err != nil {
					return err
				}
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, src, 0)
			if err != nil {
				return err
			}
			for i := len(f.Decls) - 1; i >= 0; i-- {
				gd, ok := f.Decls[i].(*ast.GenDecl)
				if !ok || gd.Tok != token.CONST {
					continue
				}
				for j := len(gd.Specs) - 1; j >= 0; j-- {
					vs := gd.Specs[j].(*ast.ValueSpec)
					for k := len(vs.Values) - 1; k >= 0; k-- {
						if nv, ok := m[vs.Names[k].Name]; ok {
							a, b := fset.Position(vs.Values[k].Pos()).Offset, fset.Position(vs.Values[k].End()).Offset
							old := string(src[a:b]) // stays in the text: what it imports stays in use
							src = append(append(append([]byte(nil), src[:a]...), nv+"+0*("+old+")"...), src[b:]...)
							ov.files[p] = src
						}
					}
				}
			}
		}
	}
	return nil
}

func parseHarnesses(path, dir string, src []byte) ([]*Harness, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var hs []*Harness
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || !strings.HasPrefix(fd.Name.Name, "VH_") || fd.Doc == nil {
			continue
		}
		h := &Harness{Name: fd.Name.Name, Pkg: dir, Tier: "both", Budget: 60, TBudget: 600, File: path, Real: true}
		var doc []string
		for _, c := range fd.Doc.List {
			t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
			if !strings.HasPrefix(t, "verif:") {
				doc = append(doc, strings.TrimSpace(t))
				continue
			}
			for _, kv := range strings.Fields(strings.TrimPrefix(t, "verif:")) {
				k, v, _ := strings.Cut(kv, "=")
				n, _ := strconv.Atoi(v)
				switch k {
				case "prop":
					h.Prop = v
				case "tier":
					h.Tier = v
				case "budget":
					h.Budget = n
				case "tbudget":
					h.TBudget = n
				case "real":
					h.Real = v != "no"
				case "ncpu":
					h.NCPU = n
				case "known":
					h.Known = v
				case "const":
					h.Consts = map[string]string{}
					for _, c := range strings.Split(v, ",") {
						a, b, _ := strings.Cut(c, ":")
						h.Consts[a] = b
					}
				default:
					return nil, fmt.Errorf("%s: unknown directive %s", path, k)
				}
			}
		}
		h.Doc = strings.Join(doc, " ")
		if h.Prop == "" {
			continue
		}
		hs = append(hs, h)
	}
	return hs, nil
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "GOENV", "GOWORK", "PATH", "CGO_ENABLED", "CGO_CFLAGS", "CGO_CXXFLAGS", "GOPATH", "GOMODCACHE", "HOME", "GO111MODULE":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "HOME=/root", "GOENV=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=readonly", "GOWORK=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "CGO_ENABLED=1", "CGO_CFLAGS=-O2 -g -I/opt/vp/rocksdb-compat",
		"CGO_CXXFLAGS=-O2 -g -DVP_BTREE_HEADERS="+btreeHash(),
		"PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
	return env
}

func btreeHash() string {
	out, err := exec.Command("bash", "-c", "cat "+repoDir+"/indextree/b/cppbtree/cpp-btree-1.0.1/*.h 2>/dev/null | sha256sum | cut -c1-16").Output()
	if err != nil {
		return "0x0"
	}
	return "0x" + strings.TrimSpace(string(out))
}

func loadProgram(ov *Overlay) (*Loaded, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:        repoDir,
		Env:        goEnv(),
		BuildFlags: []string{"-tags=cppbtree"},
		Overlay:    ov.files,
	}
	pats := []string{}
	for _, d := range repoPkgDirs {
		if d == "." {
			pats = append(pats, modPath)
		} else {
			pats = append(pats, modPath+"/"+d)
		}
	}
	pats = append(pats, modPath+"/zzv/vsym", modPath+"/zzv/vos")
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	l := &Loaded{fset: prog.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, redirects: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		l.pkgs[p.Pkg.Path()] = p
	}
	// build everything up front: SSA building is not safe concurrently with use
	prog.Build()
	for _, p := range prog.AllPackages() {
		l.built[p] = true
	}
	vs := l.pkgs[modPath+"/zzv/vsym"]
	if vs == nil {
		return nil, fmt.Errorf("vsym not loaded")
	}
	if tn, ok := vs.Pkg.Scope().Lookup("RtError").(*types.TypeName); ok {
		l.errType = types.NewPointer(tn.Type())
	}
	for from, to := range map[string]string{"sort.Slice": "SortSlice", "sort.SliceStable": "SortSlice"} {
		if fn := vs.Func(to); fn != nil {
			l.redirects[from] = fn
		}
	}
	return l, nil
}

// writeOverlay stores the overlay for the go command and returns its path.
func writeOverlay(ov *Overlay, dir string, extra map[string][]byte) (string, error) {
	rep := map[string]string{}
	i := 0
	put := func(p string, b []byte) error {
		f := filepath.Join(dir, fmt.Sprintf("f%d_%s", i, filepath.Base(p)))
		i++
		rep[p] = f
		return os.WriteFile(f, b, 0644)
	}
	var keys []string
	for p := range ov.files {
		keys = append(keys, p)
	}
	sort.Strings(keys)
	for _, p := range keys {
		if err := put(p, ov.files[p]); err != nil {
			return "", err
		}
	}
	keys = keys[:0]
	for p := range extra {
		keys = append(keys, p)
	}
	sort.Strings(keys)
	for _, p := range keys {
		if err := put(p, extra[p]); err != nil {
			return "", err
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	j := filepath.Join(dir, "overlay.json")
	return j, os.WriteFile(j, b, 0644)
}

// buildReplay compiles the native replay binary: the same harnesses linked
// with the real code by the Go compiler.
func buildReplay(ov *Overlay, dir, name string) (string, error) {
	extra := map[string][]byte{}
	var main bytes.Buffer
	main.WriteString("package main\n\nimport (\n\t\"" + modPath + "/zzv/vsym\"\n")
	pk := map[string][]*Harness{}
	for _, h := range ov.harnesses {
		pk[h.Pkg] = append(pk[h.Pkg], h)
	}
	var ds []string
	for d := range pk {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		ip := modPath
		if d != "." {
			ip += "/" + d
		}
		fmt.Fprintf(&main, "\t_ %q\n", ip)
		var reg bytes.Buffer
		fmt.Fprintf(&reg, "package %s\n\nimport \"%s/zzv/vsym\"\n\nfunc init() {\n", pkgName(d), modPath)
		for _, h := range pk[d] {
			fmt.Fprintf(&reg, "\tvsym.Register(%q, %s)\n", h.Name, h.Name)
		}
		reg.WriteString("}\n")
		extra[filepath.Join(repoDir, d, "zz_verif_reg.go")] = reg.Bytes()
	}
	main.WriteString(")\n\nfunc main() { vsym.Main() }\n")
	extra[filepath.Join(repoDir, "zzv/replaymain/main.go")] = main.Bytes()
	sub := filepath.Join(dir, "ov_"+name)
	os.MkdirAll(sub, 0755)
	oj, err := writeOverlay(ov, sub, extra)
	if err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay_"+name)
	cmd := exec.Command("/opt/veriftools/go1.23.12/bin/go", "build", "-tags", "cppbtree", "-overlay", oj, "-o", bin, modPath+"/zzv/replaymain")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build: %v\n%s", err, out)
	}
	return bin, nil
}

func pkgName(d string) string {
	if d == "." {
		return "moeingads"
	}
	return filepath.Base(d)
}
