package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Known struct {
	Property, Harness, Msg, What string
}

// lines "known: property=C01 harness=H msg="..." what failed"
func readKnown(path string) []Known {
	var out []Known
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		r := strings.TrimPrefix(l, "known: ")
		if r == l {
			continue
		}
		var k Known
		for r != "" {
			r = strings.TrimLeft(r, " ")
			i := strings.IndexByte(r, '=')
			sp := strings.IndexByte(r, ' ')
			if i < 0 || sp >= 0 && sp < i {
				k.What = r
				break
			}
			key := r[:i]
			r = r[i+1:]
			var val string
			if strings.HasPrefix(r, `"`) {
				q, err := strconv.QuotedPrefix(r)
				if err != nil {
					break
				}
				val, _ = strconv.Unquote(q)
				r = r[len(q):]
			} else {
				if sp := strings.IndexByte(r, ' '); sp >= 0 {
					val, r = r[:sp], r[sp:]
				} else {
					val, r = r, ""
				}
			}
			switch key {
			case "property":
				k.Property = val
			case "harness":
				k.Harness = val
			case "msg":
				k.Msg = val
			}
		}
		out = append(out, k)
	}
	return out
}

type native struct {
	bin, raceBin string
	err          error
	out          string
}

func buildNative(w *Workspace, work, dir string, race bool) (string, error) {
	type ovl struct{ Replace map[string]string }
	o := ovl{map[string]string{}}
	n := 0
	for p, b := range w.files {
		n++
		f := filepath.Join(work, fmt.Sprintf("ov%s%03d_%s", strings.ReplaceAll(dir, "/", "_"), n, filepath.Base(p)))
		if race {
			f = strings.Replace(f, "/ov", "/ovr", 1)
		}
		if err := os.WriteFile(f, b, 0644); err != nil {
			return "", err
		}
		o.Replace[p] = f
	}
	for _, p := range w.removed {
		o.Replace[p] = ""
	}
	js, _ := json.Marshal(o)
	tag := strings.ReplaceAll(dir, "/", "_")
	if race {
		tag += "_race"
	}
	of := filepath.Join(work, "overlay_"+tag+".json")
	os.WriteFile(of, js, 0644)
	bin := filepath.Join(work, "native_"+tag)
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./"+dir)
	cmd := exec.Command(filepath.Join(gorootDir(), "bin", "go"), args...)
	cmd.Dir = w.repo
	cmd.Env = goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, out)
	}
	return bin, nil
}

// message of a path that exceeds the limit of steps
const vHang = "does not finish"

type nativeRun struct {
	lines   []string
	raw     string
	timeout bool
	code    int
}

func runNative(bin, harness, replay string, timeout time.Duration, env ...string) nativeRun {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	dir, _ := os.MkdirTemp("", "verifrun")
	defer os.RemoveAll(dir)
	args := []string{"-test.run", "^TestVerifReplay$", "-test.count=1"}
	if bin == "/bin/sh" {
		args = append([]string{"-c", `ulimit -v 8000000; exec "$VERIF_BIN" "$@"`, "sh"}, args...)
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_HARNESS="+harness, "VERIF_REPLAY="+replay)
	cmd.Env = append(cmd.Env, env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	r := nativeRun{raw: b.String()}
	if ctx.Err() != nil {
		r.timeout = true
	}
	if e, ok := err.(*exec.ExitError); ok {
		r.code = e.ExitCode()
	}
	for _, l := range strings.Split(r.raw, "\n") {
		if strings.HasPrefix(l, "VERIF ") {
			r.lines = append(r.lines, strings.TrimPrefix(l, "VERIF "))
		}
	}
	return r
}

// does the native run show a violation?
func (r nativeRun) bad(v *Violation) (string, bool) {
	for _, l := range r.lines {
		if strings.HasPrefix(l, "assert-fail ") || strings.HasPrefix(l, "panic ") {
			return l, true
		}
	}
	if strings.Contains(r.raw, "WARNING: DATA RACE") {
		return "data race", true
	}
	if strings.Contains(r.raw, "all goroutines are asleep - deadlock") {
		return "deadlock", true
	}
	if strings.Contains(r.raw, "fatal error:") && !r.hasLine("assume-fail") {
		return "fatal error", true
	}
	if r.timeout && (strings.HasPrefix(v.Msg, "deadlock") || v.Msg == vHang) {
		return "hang", true
	}
	return "", false
}

func (r nativeRun) hasLine(p string) bool {
	for _, l := range r.lines {
		if strings.HasPrefix(l, p) {
			return true
		}
	}
	return false
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verif directory")
	only := fs.String("only", "", "only this harness")
	keep := fs.Bool("keep", false, "keep the work directory")
	tlim := fs.Int("time", 0, "time limit per harness")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	w, err := buildWorkspace(*repo, *verif, *prop)
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	work := filepath.Join(*verif, "work", fmt.Sprintf("%s-%d", *prop, os.Getpid()))
	os.MkdirAll(work, 0755)
	if !*keep {
		defer os.RemoveAll(work)
	}
	exit := func(c int) {
		if !*keep {
			os.RemoveAll(work)
		}
		os.Exit(c)
	}
	var hs []Harness
	for _, h := range w.harness {
		if *only == "" || h.Name == *only {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fmt.Println("ERROR no harness for", *prop)
		exit(2)
	}
	self, _ := os.Executable()
	reps := make([]*Report, len(hs))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	natives := map[string]*native{}
	var mu sync.Mutex
	for _, h := range hs {
		if natives[h.Dir] == nil {
			natives[h.Dir] = &native{}
		}
	}
	for dir, n := range natives {
		wg.Add(1)
		go func(dir string, n *native) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			n.bin, n.err = buildNative(w, work, dir, false)
		}(dir, n)
	}
	for i, h := range hs {
		wg.Add(1)
		go func(i int, h Harness) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			out := filepath.Join(work, h.Name+".json")
			a := []string{"run", "-prop", *prop, "-harness", h.Name, "-tier", *tier, "-out", out, "-repo", *repo, "-verif", *verif}
			if *tlim > 0 {
				a = append(a, "-time", fmt.Sprint(*tlim))
			}
			cmd := exec.Command(self, a...)
			// hard limit well above the engine's own
			hard := 240 * time.Second
			if *tier == "thorough" {
				hard = 1500 * time.Second
			}
			ctx, cancel := context.WithTimeout(context.Background(), hard)
			defer cancel()
			cmd = exec.CommandContext(ctx, cmd.Path, cmd.Args[1:]...)
			b, err := cmd.CombinedOutput()
			r := &Report{Harness: h.Name, Dir: h.Dir}
			js, e2 := os.ReadFile(out)
			if e2 == nil {
				e2 = json.Unmarshal(js, r)
			}
			if e2 != nil {
				r.Err = fmt.Sprintf("engine process: %v %s", err, b)
			}
			mu.Lock()
			reps[i] = r
			mu.Unlock()
		}(i, h)
	}
	wg.Wait()

	known := readKnown(filepath.Join(*verif, "known-findings.txt"))
	reported := 0
	var notes []string
	var violNotes []interface{}
	replayDir := filepath.Join(*verif, "evidence", "replay")
	os.MkdirAll(replayDir, 0755)
	validated, mismatched := 0, 0
	knownHit := map[string]bool{}
	failed := 0
	for _, r := range reps {
		n := natives[r.Dir]
		if r.Err != "" {
			fmt.Printf("ERROR %s: %s\n", r.Harness, r.Err)
			failed++
			continue
		}
		if r.Paths == 0 && len(r.Violations) == 0 {
			fmt.Printf("ERROR %s: no path could be completed: %v\n", r.Harness, sortedKeys(r.Incomplete))
			failed++
		}
		if n.err != nil {
			fmt.Printf("ERROR %s: %v\n", r.Harness, n.err)
			failed++
			continue
		}
		confirmed := 0
		for vi, v := range r.Violations {
			isKnown := false
			for _, k := range known {
				if k.Property == *prop && k.Harness == r.Harness && k.Msg == v.Msg {
					isKnown = true
					if !knownHit[k.What] {
						knownHit[k.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
					}
				}
			}
			if isKnown {
				continue
			}
			if confirmed >= 3 || vi >= 12 {
				break
			}
			js, _ := json.MarshalIndent(map[string]interface{}{
				"property": *prop, "tier": *tier, "harness": r.Harness, "package": r.Dir, "msg": v.Msg, "pos": v.Pos, "stack": v.Stack,
				"inputs": v.Inputs, "order": v.Order, "trace": v.Trace, "schedule": v.Schedule, "maporder": v.MapOrder,
				"how": "bash /verif/tools/replay.sh <this file>",
			}, "", " ")
			sum := sha256.Sum256(js)
			rp := filepath.Join(replayDir, fmt.Sprintf("%s_%s_%x.json", *prop, r.Harness, sum[:4]))
			os.WriteFile(rp, js, 0644)
			what, ok := confirm(w, work, n, r, v, rp)
			if !ok {
				notes = append(notes, fmt.Sprintf("%s: counterexample %q at %s did not reproduce natively: %s", r.Harness, v.Msg, v.Pos, what))
				fmt.Printf("NOTE %s: counterexample %q at %s is not confirmed by the native run (%s)\n", r.Harness, v.Msg, v.Pos, what)
				continue
			}
			confirmed++
			reported++
			violNotes = append(violNotes, map[string]string{"harness": r.Harness, "msg": v.Msg, "pos": v.Pos, "native": what, "replay": rp})
			fmt.Printf("%s: %s at %s [native: %s]\n", r.Harness, v.Msg, v.Pos, what)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		}
		// sampled paths must behave alike natively
		for si, s := range r.Samples {
			if s.Fuzzy {
				continue
			}
			js, _ := json.Marshal(map[string]interface{}{"inputs": s.Inputs, "tier": *tier})
			rp := filepath.Join(work, fmt.Sprintf("sample_%s_%d.json", r.Harness, si))
			os.WriteFile(rp, js, 0644)
			nr := runNative(n.bin, r.Harness, rp, 30*time.Second)
			var want, got []string
			for _, o := range s.Obs {
				want = append(want, o["label"]+"="+o["value"])
			}
			done := false
			for _, l := range nr.lines {
				if o := strings.TrimPrefix(l, "obs "); o != l {
					got = append(got, o)
				}
				if l == "done" {
					done = true
				}
			}
			if done && strings.Join(want, "\n") == strings.Join(got, "\n") {
				validated++
			} else {
				mismatched++
				m := fmt.Sprintf("%s: sampled path differs natively: want %v got %v done=%v", r.Harness, want, got, done)
				if len(nr.lines) > 0 {
					m += " lines=" + strings.Join(nr.lines, " | ")
				} else {
					m += " raw=" + trunc(nr.raw, 300)
				}
				notes = append(notes, m)
				fmt.Println("NOTE", m, "inputs", s.Inputs)
			}
		}
	}
	writeEvidence(*verif, *prop, *tier, seed, reps, notes, violNotes, validated, mismatched, reported, time.Since(t0).Seconds())
	for _, r := range reps {
		fmt.Printf("%s: paths=%d states=%d steps=%d merges=%d asserts=%d(+%d) queries=%d solver=%.1fs wall=%.1fs viol=%d incomplete=%v reach=%v\n",
			r.Harness, r.Paths, r.States, r.Steps, r.Merges, r.Asserts, r.Trivial, r.Queries, r.SolverS, r.WallS, len(r.Violations), r.Incomplete, r.Reach)
	}
	fmt.Printf("property=%s tier=%s validated=%d mismatched=%d wall=%.1fs\n", *prop, *tier, validated, mismatched, time.Since(t0).Seconds())
	switch {
	case reported > 0:
		exit(1)
	case failed > 0:
		exit(2)
	}
	exit(0)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func confirm(w *Workspace, work string, n *native, r *Report, v *Violation, rp string) (string, bool) {
	tries := 1
	if v.MapOrder {
		tries = 150
	}
	if v.Schedule {
		tries = 60
	}
	last := ""
	if v.Msg == vHang {
		// endless loops may also consume memory without end
		nr := runNative("/bin/sh", r.Harness, rp, 15*time.Second, "VERIF_BIN="+n.bin)
		what, ok := nr.bad(v)
		if !ok {
			what = strings.Join(nr.lines, " | ")
		}
		return what, ok
	}
	for i := 0; i < tries; i++ {
		nr := runNative(n.bin, r.Harness, rp, 30*time.Second, "VERIF_TRY="+fmt.Sprint(i))
		if what, ok := nr.bad(v); ok {
			return what, true
		}
		last = strings.Join(nr.lines, " | ")
		if last == "" {
			last = trunc(nr.raw, 300)
		}
	}
	if v.Schedule {
		if n.raceBin == "" {
			b, err := buildNative(w, work, r.Dir, true)
			if err != nil {
				return "race build failed: " + err.Error(), false
			}
			n.raceBin = b
		}
		for i := 0; i < 20; i++ {
			nr := runNative(n.raceBin, r.Harness, rp, 60*time.Second, "VERIF_TRY="+fmt.Sprint(i))
			if what, ok := nr.bad(v); ok {
				return what, true
			}
		}
	}
	return last, false
}

// replay one recorded counterexample
func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	file := fs.String("file", "", "replay file")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verif directory")
	fs.Parse(args)
	b, err := os.ReadFile(*file)
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	var c struct {
		Property, Harness, Package, Msg string
		Schedule, MapOrder              bool
	}
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	w, err := buildWorkspace(*repo, *verif, c.Property)
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	work, _ := os.MkdirTemp("", "verifreplay")
	code := 2
	defer func() { os.RemoveAll(work); os.Exit(code) }()
	n := &native{}
	if n.bin, err = buildNative(w, work, c.Package, false); err != nil {
		fmt.Println("ERROR", err)
		return
	}
	rp, _ := filepath.Abs(*file)
	nr := runNative(n.bin, c.Harness, rp, 60*time.Second)
	fmt.Print(nr.raw)
	what, ok := confirm(w, work, n, &Report{Harness: c.Harness, Dir: c.Package}, &Violation{Msg: c.Msg, Schedule: c.Schedule, MapOrder: c.MapOrder}, rp)
	fmt.Println("expected:", c.Msg)
	fmt.Println("native run:", what)
	code = 0
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, rp)
		code = 1
	}
}

func writeEvidence(verif, prop, tier string, seed int, reps []*Report, notes []string, viols []interface{}, validated, mismatched, reported int, wall float64) {
	states, steps, paths, queries, asserts, trivial, sat, unsat, unknown := 0, 0, 0, 0, 0, 0, 0, 0, 0
	solver := 0.0
	funcs := map[string]bool{}
	inc := map[string]int{}
	var samples []interface{}
	var per []interface{}
	complete := true
	ib := map[string]interface{}{}
	for _, r := range reps {
		states += r.States
		steps += r.Steps
		paths += r.Paths
		queries += r.Queries
		asserts += r.Asserts
		trivial += r.Trivial
		sat += r.Sat
		unsat += r.Unsat
		unknown += r.Unknown
		solver += r.SolverS
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for k, n := range r.Incomplete {
			inc[r.Harness+": "+k] += n
			complete = false
		}
		for i, s := range r.Samples {
			if i < 2 {
				samples = append(samples, map[string]interface{}{"harness": r.Harness, "inputs": s.Inputs, "observed": s.Obs, "reached": s.Reach})
			}
		}
		hb := map[string]interface{}{"inputs": r.Inputs, "steps_of_a_path": r.MaxSteps}
		if strings.Contains(r.Opts, "preempt") {
			hb["preemptions"] = r.Preempt
		}
		if r.MapOrders > 1 {
			hb["map_orders"] = fmt.Sprintf("up to %d orders of iteration", r.MapOrders)
		}
		ib[r.Harness] = hb
		per = append(per, map[string]interface{}{"harness": r.Harness, "paths": r.Paths, "states": r.States, "transitions": r.Steps,
			"merges": r.Merges, "assertions_by_solver": r.Asserts, "assertions_by_simplification": r.Trivial, "assertions": r.AssertMsgs,
			"reached": r.Reach, "queries": r.Queries, "solver_s": r.SolverS, "wall_s": r.WallS, "options": r.Opts, "incomplete": r.Incomplete, "error": r.Err,
			"uninitialized": r.InitFails})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	bounds, _ := os.ReadFile(filepath.Join(verif, "harness", "bounds.json"))
	var bm map[string]map[string]interface{}
	json.Unmarshal(bounds, &bm)
	cov := map[string]interface{}{
		"states": states, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
		"paths": paths, "functions_encoded": fl, "queries": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unknown,
		"solver_s": solver, "assertions_decided_by_solver": asserts, "assertions_decided_by_simplification": trivial,
		"traces_that_differed": mismatched, "bounds_completely_explored": complete, "left_out": inc, "harnesses": per, "notes": notes,
		"confirmed_violations": viols,
	}
	cov["bounds"] = ib
	if b, ok := bm[prop]; ok {
		cov["outside_bounds"] = b["outside"]
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall,
		"violations": reported, "assumptions": []string{
			"the SSA form of golang.org/x/tools/go/ssa and this engine's semantics of it agree with the Go compiler (sampled paths are re-run natively)",
			"z3 answers are correct",
			"operating system, process and RPC server calls behave as the models in /verif/rt do",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
}
