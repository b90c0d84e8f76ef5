package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modName = "github.com/maxnikulin/burl"

// standard packages replaced by models
var shims = map[string]string{
	"os":              "vos",
	"os/exec":         "vexec",
	"io/ioutil":       "vioutil",
	"log":             "vlog",
	"net/rpc":         "vrpc",
	"net/rpc/jsonrpc": "vjsonrpc",
	"path/filepath":   "vfilepath",
	"flag":            "vflag",
}

// printing on standard output without naming it
var printsToStdout = regexp.MustCompile(`\bPrint(f|ln)?\(`)

// Workspace: files laid over /repo, by absolute path
type Workspace struct {
	repo    string
	verif   string
	files   map[string][]byte
	removed []string // test files hidden from the native build
	harness []Harness
}

type Harness struct {
	Prop string
	Name string // function
	Dir  string // package directory relative to the repository
}

// replace the import paths of one source file, keeping every line in place
func rewriteImports(path string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ImportsOnly)
	if err != nil {
		return nil, err
	}
	type edit struct {
		off, end int
		txt      string
	}
	var eds []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		sh, ok := shims[p]
		if p == "fmt" && printsToStdout.Match(src) {
			sh, ok = "vfmt", true
		}
		if !ok {
			continue
		}
		txt := strconv.Quote(modName + "/internal/verif/" + sh)
		if im.Name == nil {
			txt = p[strings.LastIndex(p, "/")+1:] + " " + txt
		}
		eds = append(eds, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, txt})
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].off > eds[j].off })
	out := string(src)
	for _, e := range eds {
		out = out[:e.off] + e.txt + out[e.end:]
	}
	return []byte(out), nil
}

func buildWorkspace(repo, verif, prop string) (*Workspace, error) {
	w := &Workspace{repo: repo, verif: verif, files: map[string][]byte{}}
	for _, top := range []string{"pkg", "cmd", "tools", "examples"} {
		err := filepath.Walk(filepath.Join(repo, top), func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return err
			}
			if strings.HasSuffix(p, "_test.go") {
				w.removed = append(w.removed, p)
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			n, err := rewriteImports(p, src)
			if err != nil {
				return nil // reported by the loader
			}
			if string(n) != string(src) {
				w.files[p] = n
			}
			return nil
		})
		if err != nil {
			return nil, err
		}
	}
	// the model packages
	root := filepath.Join(verif, "rt")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		w.files[filepath.Join(repo, "internal", "verif", rel)] = src
		return nil
	})
	if err != nil {
		return nil, err
	}
	// package flag itself, on top of the modelled os
	goroot := gorootDir()
	fsrc, err := os.ReadFile(filepath.Join(goroot, "src", "flag", "flag.go"))
	if err != nil {
		return nil, err
	}
	fsrc, err = rewriteImports("flag.go", fsrc)
	if err != nil {
		return nil, err
	}
	w.files[filepath.Join(repo, "internal", "verif", "vflag", "flag.go")] = append([]byte("//go:build go1.27\n\n"), fsrc...)
	// harnesses
	hs, _ := filepath.Glob(filepath.Join(verif, "harness", "*.go"))
	sort.Strings(hs)
	dirs := map[string]string{}
	for _, h := range hs {
		base := strings.TrimSuffix(filepath.Base(h), ".go")
		if !(base == prop || strings.HasPrefix(base, prop+"_")) {
			continue
		}
		src, err := os.ReadFile(h)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, h, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		dir := ""
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if d := strings.TrimPrefix(c.Text, "//verif:pkg "); d != c.Text {
					dir = strings.TrimSpace(d)
				}
			}
		}
		if dir == "" {
			return nil, fmt.Errorf("%s: no //verif:pkg", h)
		}
		dirs[dir] = f.Name.Name
		dst := filepath.Join(repo, dir, "zz_verif_"+base+".go")
		n, err := rewriteImports(h, src)
		if err != nil {
			return nil, err
		}
		w.files[dst] = append([]byte("//go:build go1.27\n\n"), n...)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "V"+prop+"_") {
				w.harness = append(w.harness, Harness{prop, fd.Name.Name, dir})
			}
		}
		// common helpers for that package directory
		coms, _ := filepath.Glob(filepath.Join(verif, "harness", "common", filepath.Base(dir)+"_*.go"))
		coms = append(coms, filepath.Join(verif, "harness", "common", filepath.Base(dir)+".go"))
		all, _ := filepath.Glob(filepath.Join(verif, "harness", "common", "any_*.go"))
		coms = append(coms, all...)
		for _, com := range coms {
			b, err := os.ReadFile(com)
			if err != nil {
				continue
			}
			if b, err = rewriteImports(com, b); err != nil {
				return nil, err
			}
			if strings.HasPrefix(filepath.Base(com), "any_") {
				b = []byte(strings.Replace(string(b), "package any\n", "package "+f.Name.Name+"\n", 1))
			}
			w.files[filepath.Join(repo, dir, "zz_verif_common_"+filepath.Base(com))] = append([]byte("//go:build go1.27\n\n"), b...)
		}
	}
	for dir, pkg := range dirs {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s/internal/verif\"\n)\n\n", pkg, modName)
		b.WriteString("func TestVerifReplay(t *testing.T) {\n\tverif.Main(map[string]func(){\n")
		for _, h := range w.harness {
			if h.Dir == dir {
				fmt.Fprintf(&b, "\t\t%q: %s,\n", h.Name, h.Name)
			}
		}
		b.WriteString("\t})\n}\n")
		w.files[filepath.Join(repo, dir, "zz_verif_replay_test.go")] = []byte(b.String())
	}
	return w, nil
}

func gorootDir() string {
	if d := os.Getenv("VERIF_GOROOT"); d != "" {
		return d
	}
	return "/opt/veriftools/go1.27.3"
}

func loadProgram(w *Workspace, dir string) (*ssa.Program, *ssa.Package, *token.FileSet, error) {
	ov := map[string][]byte{}
	for p, b := range w.files {
		if !strings.HasSuffix(p, "_test.go") {
			ov[p] = b
		}
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: w.repo, Overlay: ov, Fset: fset, Env: goEnv()}
	pk, err := packages.Load(cfg, "./"+dir)
	if err != nil {
		return nil, nil, nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modName) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	return prog, pkgs[0], fset, nil
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local",
		"PATH="+gorootDir()+"/bin:"+os.Getenv("PATH"))
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

func newX(prog *ssa.Program, fset *token.FileSet, opts Options) *X {
	x := &X{prog: prog, fset: fset, modPath: modName, opts: opts,
		base: map[int32]*Obj{}, globals: map[*ssa.Global]int32{}, inited: map[*ssa.Package]int{},
		infos: map[*ssa.Function]*fnInfo{}, reach: map[string]int{}, assertMsgs: map[string]int{},
		violKeys: map[string]bool{}, incomplete: map[string]int{}, funcs: map[*ssa.Function]int{},
		initFails: map[string]string{}, forkSites: map[string]int{}, methCache: map[methKey]*ssa.Function{},
		sites: map[int32]ssa.Instruction{}, intrCache: map[*ssa.Function]intrinsicFn{},
		reConst: map[string]*reModel{}, poison: map[int32]string{}, maxSamples: 6}
	x.deadline = time.Now().Add(time.Hour)
	return x
}

func (x *X) globalObj(g *ssa.Global) int32 {
	if id, ok := x.globals[g]; ok {
		if why, bad := x.poison[id]; bad && x.initing == 0 {
			panic(unsupported{"variable " + g.String() + " could not be initialized: " + why})
		}
		return id
	}
	x.nextObj++
	id := x.nextObj
	x.globals[g] = id
	t := g.Type().Underlying().(*types.Pointer).Elem()
	n := ncells(t)
	cells := make([]Value, n)
	zeroCells(t, cells)
	x.base[id] = &Obj{elem: t, cells: cells, owner: -1}
	return id
}

func isModulePkg(p *ssa.Package) bool {
	return p.Pkg.Path() == modName || strings.HasPrefix(p.Pkg.Path(), modName+"/")
}

// run the package's variable initializers and init functions on the base heap
func (x *X) ensureInit(p *ssa.Package) {
	if p == nil || x.inited[p] != 0 {
		return
	}
	x.inited[p] = 1
	init := p.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		x.inited[p] = 2
		return
	}
	switch p.Pkg.Path() {
	case "runtime", "internal/cpu", "syscall", "internal/godebug", "internal/poll", "internal/runtime/maps":
		// machine dependent; variables keep their zero values
		x.inited[p] = 2
		return
	}
	saveState, saveLimit := x.initState, x.curLimit
	st := &State{id: -1, tok: new(int), heap: map[int32]*Obj{}, known: map[int32]uint64{}, model: Model{},
		ndCount: map[string]int{}, native: map[string]Value{"noviol": tTrue}}
	st.threads = []*Thread{{}}
	x.initing++
	x.initState = st
	x.curLimit = ""
	x.pushCall(st, &Closure{fn: init}, nil, 0, "")
	np := x.nPaths
	for {
		r, kids, _ := x.chunk(st)
		if r == rDone || r == rDead {
			if r == rDead && !x.initRecover(st) {
				break
			}
			if r == rDone {
				break
			}
		}
		if r == rFork {
			st = kids[0]
			x.initFails[p.Pkg.Path()] = "symbolic branch"
			break
		}
	}
	x.nPaths = np
	x.initing--
	x.initState = saveState
	x.curLimit = saveLimit
	x.inited[p] = 2
}

// skip the initializer that could not be run
func (x *X) initRecover(st *State) bool {
	th := st.th()
	if len(th.frames) == 0 {
		return false
	}
	why := x.lastUnsup
	x.initFails[th.frames[0].fn.Pkg.Pkg.Path()+" "+why] = why
	th.frames = th.frames[:1]
	f := th.frames[0]
	f.panicking = nil
	in := f.block.Instrs[f.idx]
	switch in := in.(type) {
	case *ssa.Store:
		if g := rootGlobal(in.Addr); g != nil {
			x.poison[x.globals[g]] = why
		}
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
		return false
	default:
		if v, ok := in.(ssa.Value); ok {
			f.regs[f.info.idx[v]] = nil
		}
	}
	f.idx++
	f.memo = nil
	return true
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch w := v.(type) {
		case *ssa.Global:
			return w
		case *ssa.FieldAddr:
			v = w.X
		case *ssa.IndexAddr:
			v = w.X
		default:
			return nil
		}
	}
}
