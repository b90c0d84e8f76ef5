package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: engine check|run ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		checkMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "run":
		runMain(os.Args[2:])
	default:
		fmt.Println("unknown command", os.Args[1])
		os.Exit(2)
	}
}

// Report of one harness
type Report struct {
	Harness    string         `json:"harness"`
	Dir        string         `json:"dir"`
	States     int            `json:"states"`
	Paths      int            `json:"paths"`
	Steps      int            `json:"steps"`
	Merges     int            `json:"merges"`
	Decisions  int            `json:"decisions"`
	Asserts    int            `json:"asserts"`
	Trivial    int            `json:"trivial"`
	AssertMsgs map[string]int `json:"assert_msgs"`
	Reach      map[string]int `json:"reach"`
	Violations []*Violation   `json:"violations"`
	Incomplete map[string]int `json:"incomplete"`
	Funcs      []string       `json:"funcs"`
	Samples    []*Sample      `json:"samples"`
	Inputs     []string       `json:"inputs"`
	MapOrders  int            `json:"map_orders"`
	Preempt    int            `json:"preempt"`
	MaxSteps   int            `json:"max_steps"`
	Queries    int            `json:"queries"`
	Sat        int            `json:"sat"`
	Unsat      int            `json:"unsat"`
	Unknown    int            `json:"unknown"`
	CacheHits  int            `json:"cache_hits"`
	SolverS    float64        `json:"solver_s"`
	SolverMaxS float64        `json:"solver_max_s"`
	LoadS      float64        `json:"load_s"`
	WallS      float64        `json:"wall_s"`
	InitFails  []string       `json:"init_fails"`
	Opts       string         `json:"opts"`
	Err        string         `json:"err"`
}

// options from the harness' doc comment: //verif:opts time=60 ttime=600 maporders=1 preempt=2 nomerge
func harnessOpts(prog *ssa.Program, fset *token.FileSet, w *Workspace, fn *ssa.Function) string {
	pos := fset.Position(fn.Pos())
	src, ok := w.files[pos.Filename]
	if !ok {
		return ""
	}
	lines := strings.Split(string(src), "\n")
	var o []string
	for i := pos.Line - 2; i >= 0; i-- {
		l := strings.TrimSpace(lines[i])
		if !strings.HasPrefix(l, "//") {
			break
		}
		if r := strings.TrimPrefix(l, "//verif:opts "); r != l {
			o = append(o, r)
		}
	}
	return strings.Join(o, " ")
}

func optInt(opts, key string, def int) int {
	for _, f := range strings.Fields(opts) {
		if f == key {
			return 1
		}
		if r := strings.TrimPrefix(f, key+"="); r != f {
			n, err := strconv.Atoi(r)
			if err == nil {
				return n
			}
		}
	}
	return def
}

func runMain(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	name := fs.String("harness", "", "harness function")
	tier := fs.String("tier", "quick", "tier")
	out := fs.String("out", "", "report file")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verif directory")
	verbose := fs.Bool("v", false, "verbose")
	tlim := fs.Int("time", 0, "time limit, seconds")
	mergeoff := fs.Bool("nomerge", false, "no merging")
	fs.Parse(args)
	debug.SetGCPercent(200)
	if os.Getenv("GOMEMLIMIT") == "" {
		debug.SetMemoryLimit(3 << 30)
	}
	t0 := time.Now()
	w, err := buildWorkspace(*repo, *verif, *prop)
	rep := &Report{Harness: *name}
	finish := func() {
		rep.WallS = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0644)
		} else {
			os.Stdout.Write(append(b, '\n'))
		}
	}
	if err != nil {
		rep.Err = err.Error()
		finish()
		return
	}
	for _, h := range w.harness {
		if h.Name == *name {
			rep.Dir = h.Dir
		}
	}
	prog, pkg, fset, err := loadProgram(w, rep.Dir)
	if err != nil {
		rep.Err = err.Error()
		finish()
		return
	}
	rep.LoadS = time.Since(t0).Seconds()
	fn := pkg.Func(*name)
	if fn == nil {
		rep.Err = "no harness function " + *name
		finish()
		return
	}
	ho := harnessOpts(prog, fset, w, fn)
	rep.Opts = ho
	opts := Options{MaxSteps: optInt(ho, "steps", 3000000), MaxPaths: optInt(ho, "paths", 0),
		MapOrders: optInt(ho, "maporders", 0), Preempt: optInt(ho, "preempt", 2),
		Verbose: *verbose, MergeOff: *mergeoff || optInt(ho, "nomerge", 0) == 1}
	x := newX(prog, fset, opts)
	limit := optInt(ho, "time", 100)
	if *tier == "thorough" {
		x.tier = 1
		limit = optInt(ho, "ttime", 700)
		opts.Preempt = optInt(ho, "tpreempt", opts.Preempt)
		x.opts = opts
	}
	if *tlim > 0 {
		limit = *tlim
	}
	x.deadline = time.Now().Add(time.Duration(limit) * time.Second)
	x.solver = NewSolver(optInt(ho, "solver", 20000))
	func() {
		defer func() {
			if r := recover(); r != nil {
				rep.Err = fmt.Sprintf("engine panic: %v\n%s", r, debug.Stack())
			}
		}()
		x.runHarness(fn)
	}()
	x.solver.Close()
	rep.fill(x)
	finish()
	if *verbose {
		type kv struct {
			k string
			v int
		}
		var l []kv
		for k, v := range x.forkSites {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for i, e := range l {
			if i > 25 {
				break
			}
			fmt.Fprintln(os.Stderr, "forks", e.v, e.k)
		}
	}
}

func (x *X) runHarness(fn *ssa.Function) {
	x.ensureInit(fn.Pkg)
	x.funcs = map[*ssa.Function]int{}
	st := &State{id: 0, tok: new(int), heap: map[int32]*Obj{}, known: map[int32]uint64{}, model: Model{},
		ndCount: map[string]int{}, native: map[string]Value{}}
	st.threads = []*Thread{{}}
	x.pushCall(st, &Closure{fn: fn}, nil, 0, "")
	x.nStates = 1
	x.run(st, stopSpec{none: true}, 0)
}

func (r *Report) fill(x *X) {
	r.States, r.Paths, r.Steps, r.Merges, r.Decisions = x.nStates, x.nPaths, x.nSteps, x.nMerges, x.nDecisions
	r.Asserts, r.Trivial, r.AssertMsgs, r.Reach = x.nAsserts, x.nTrivial, x.assertMsgs, x.reach
	r.Violations, r.Incomplete, r.Samples = x.viols, x.incomplete, x.samples
	for f := range x.funcs {
		n := f.String()
		if strings.Contains(n, modName) && !strings.Contains(n, modName+"/internal/verif") {
			if p := x.fset.Position(f.Pos()).Filename; strings.Contains(p, "zz_verif") {
				continue
			}
			r.Funcs = append(r.Funcs, strings.ReplaceAll(n, modName+"/", ""))
		}
	}
	sort.Strings(r.Funcs)
	r.Inputs, r.MapOrders, r.Preempt, r.MaxSteps = x.inputBounds(), x.opts.MapOrders, x.opts.Preempt, x.opts.MaxSteps
	s := x.solver
	r.Queries, r.Sat, r.Unsat, r.Unknown, r.CacheHits = s.Queries, s.SatN, s.UnsatN, s.UnknownN, s.CacheHit
	r.SolverS, r.SolverMaxS = s.Time.Seconds(), s.MaxTime.Seconds()
	for k := range x.initFails {
		r.InitFails = append(r.InitFails, k)
	}
	sort.Strings(r.InitFails)
}

func (x *X) sample(s *State) {
	x.nSamples++
	k := len(x.samples)
	if k >= x.maxSamples {
		// keep later paths too: replace at sparse positions
		if x.nSamples&(x.nSamples-1) != 0 {
			return
		}
		k = 1 + (x.nSamples>>3)%(x.maxSamples-1)
	}
	in, ord := x.inputs(s, s.model)
	sm := &Sample{Inputs: in, Order: ord, Reach: s.reached,
		Fuzzy: hasPrefix(s.trace, "sched") || hasPrefix(s.trace, "maporder")}
	for _, o := range s.obs {
		sm.Obs = append(sm.Obs, map[string]string{"label": o.label, "value": x.showObs(s, o.v, true)})
	}
	if k < len(x.samples) {
		x.samples[k] = sm
	} else {
		x.samples = append(x.samples, sm)
	}
}

// same text as verif.show produces natively
func (x *X) showObs(s *State, v Value, signed bool) string {
	switch v := v.(type) {
	case *Term:
		n := s.eval(v)
		if v.w == 0 {
			return fmt.Sprint(n == 1)
		}
		return fmt.Sprint(sext64(n, v.w))
	case *Str:
		b := make([]byte, v.Len())
		for i := range b {
			b[i] = byte(s.eval(v.At(i)))
		}
		return strconv.Quote(string(b))
	case Tuple:
		var l []string
		for _, e := range v {
			l = append(l, x.showObs(s, e, signed))
		}
		return "[" + strings.Join(l, " ") + "]"
	}
	return "?"
}
