package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (x *X) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	i := &fnInfo{fn: fn, idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		i.idx[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	i.computeIpdom()
	x.infos[fn] = i
	return i
}

// immediate post-dominators by the iterative set algorithm
func (fi *fnInfo) computeIpdom() {
	n := len(fi.fn.Blocks)
	fi.ipdom = make([]*ssa.BasicBlock, n)
	if n == 0 {
		return
	}
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	for changed := true; changed; {
		changed = false
		for k := n - 1; k >= 0; k-- {
			b := fi.fn.Blocks[k]
			s := make([]uint64, words)
			if len(b.Succs) > 0 {
				copy(s, full)
				for _, q := range b.Succs {
					for w := range s {
						s[w] &= pd[q.Index][w]
					}
				}
			}
			s[k>>6] |= 1 << (k & 63)
			for w := range s {
				if s[w] != pd[k][w] {
					changed = true
				}
			}
			pd[k] = s
		}
	}
	cnt := func(k int) int {
		c := 0
		for i := 0; i < n; i++ {
			if pd[k][i>>6]>>(i&63)&1 == 1 {
				c++
			}
		}
		return c
	}
	for k := 0; k < n; k++ {
		best, bc := -1, -1
		for i := 0; i < n; i++ {
			if i != k && pd[k][i>>6]>>(i&63)&1 == 1 {
				if c := cnt(i); c > bc {
					best, bc = i, c
				}
			}
		}
		if best >= 0 && cnt(k) <= n {
			fi.ipdom[k] = fi.fn.Blocks[best]
		}
	}
}

// live-in values per block
func (fi *fnInfo) liveIn(b *ssa.BasicBlock) map[ssa.Value]bool {
	if fi.live == nil {
		fi.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
		for _, b := range fi.fn.Blocks {
			fi.live[b] = map[ssa.Value]bool{}
		}
		var ops []*ssa.Value
		for changed := true; changed; {
			changed = false
			for k := len(fi.fn.Blocks) - 1; k >= 0; k-- {
				b := fi.fn.Blocks[k]
				l := map[ssa.Value]bool{}
				for _, s := range b.Succs {
					pi := -1
					for i, p := range s.Preds {
						if p == b {
							pi = i
						}
					}
					for v := range fi.live[s] {
						l[v] = true
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						delete(l, ph)
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if _, ok := fi.idx[ph.Edges[pi]]; ok {
							l[ph.Edges[pi]] = true
						}
					}
				}
				for i := len(b.Instrs) - 1; i >= 0; i-- {
					in := b.Instrs[i]
					if v, ok := in.(ssa.Value); ok {
						if _, isPhi := in.(*ssa.Phi); !isPhi {
							delete(l, v)
						}
					}
					if _, isPhi := in.(*ssa.Phi); isPhi {
						continue
					}
					ops = in.Operands(ops[:0])
					for _, o := range ops {
						if *o != nil {
							if _, ok := fi.idx[*o]; ok {
								l[*o] = true
							}
						}
					}
				}
				// phis of b itself are considered live on entry (already evaluated at the stop point)
				if len(l) != len(fi.live[b]) {
					changed = true
					fi.live[b] = l
				}
			}
		}
	}
	return fi.live[b]
}

func (x *X) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"constant of type " + t.String()})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return BoolT(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return cstr(string(rune(i)))
		}
		return cstr(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		w := widthOf(b)
		if i, ok := constant.Int64Val(v); ok {
			return Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return Const(w, u)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Kind() == types.UnsafePointer:
		return Ptr{}
	}
	panic(unsupported{"constant of type " + t.String()})
}

func (x *X) get(st *State, f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		x.ensureInit(v.Pkg)
		return Ptr{x.globalObj(v), 0}
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return &Closure{name: v.Name()}
	}
	i, ok := f.info.idx[v]
	if !ok {
		panic(unsupported{fmt.Sprintf("operand %s of %s", v.Name(), f.fn)})
	}
	r := f.regs[i]
	if r == nil {
		panic(unsupported{fmt.Sprintf("undefined register %s in %s", v.Name(), f.fn)})
	}
	return r
}

func (x *X) set(f *Frame, v ssa.Value, r Value) {
	f.regs[f.info.idx[v]] = r
}

type stopSpec struct {
	depth int
	block *ssa.BasicBlock // nil: on return
	none  bool
	par   bool // all threads started by Parallel have ended
}

func (st *State) atStop(s stopSpec) bool {
	if s.none {
		return false
	}
	if s.par {
		return st.cur == 0
	}
	if st.cur != 0 {
		return false
	}
	d := st.depth()
	if d < s.depth {
		return true
	}
	if d == s.depth && s.block != nil {
		f := st.frame()
		return f.block == s.block && f.panicking == nil
	}
	return false
}

type stepResult int

const (
	rArrived stepResult = iota // entered a block or returned
	rDead
	rFork
	rDone
)

// run a state until every descendant stopped or died
func (x *X) run(st *State, stop stopSpec, depth int) []*State {
	work := []*State{st}
	var out []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if s.arrived && s.atStop(stop) {
				out = append(out, s)
				break
			}
			s.arrived = false
			if x.expired() {
				x.incompleteAt(x.curLimit)
				break
			}
			r, kids, mergeStop := x.chunk(s)
			if r == rArrived {
				continue
			}
			if r == rDead || r == rDone {
				break
			}
			if mergeStop != nil && depth < 400 {
				var ends []*State
				for _, k := range kids {
					ends = append(ends, x.run(k, *mergeStop, depth+1)...)
				}
				ends = x.merge(ends)
				work = append(work, ends...)
				break
			}
			for i := len(kids) - 1; i > 0; i-- {
				work = append(work, kids[i])
			}
			s = kids[0]
		}
	}
	return out
}

func (x *X) expired() bool {
	if x.curLimit != "" {
		return true
	}
	if x.nExpired++; x.nExpired&15 == 0 && time.Now().After(x.deadline) {
		x.curLimit = "time limit"
		return true
	}
	if x.opts.MaxPaths > 0 && x.nStates > x.opts.MaxPaths {
		x.curLimit = "state limit"
		return true
	}
	return false
}

// chunk executes instructions of s until it enters another block, returns, forks or ends
func (x *X) chunk(s *State) (res stepResult, kids []*State, ms *stopSpec) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case forkReq:
			a, b := x.forkOn(s, r.c)
			switch {
			case a != nil && b != nil:
				res, kids = rFork, []*State{a, b}
			case a != nil:
				res, kids = rFork, []*State{a}
			case b != nil:
				res, kids = rFork, []*State{b}
			default:
				res = rDead
			}
		case forkStates:
			res, kids = rFork, r.list
			if len(kids) == 0 {
				res = rDead
			}
		case needCall:
			x.pushCall(s, r.fn, r.args, 2, r.key)
			res = rArrived
			s.arrived = false
		case deadPath:
			if x.opts.Verbose {
				fmt.Println("DEAD", r, x.stack(s))
			}
			res = rDead
		case goPanic:
			s.startPanic(r.v, x.pos(s))
			res = rArrived
		case blocked:
			res, kids = x.reschedule(s)
		case unsupported:
			if s == x.initState {
				x.lastUnsup = r.msg
				res = rDead
				return
			}
			where := x.pos(s)
			x.incompleteAt("unsupported: " + r.msg + " at " + where)
			if x.opts.Verbose {
				fmt.Println("UNSUPPORTED", r.msg, x.stack(s))
			}
			res = rDead
		default:
			fmt.Println("engine panic:", r)
			for _, l := range x.stack(s) {
				fmt.Println("   ", l)
			}
			panic(r)
		}
	}()
	for {
		f := s.frame()
		if f.panicking != nil {
			if done := x.unwind(s); done {
				return rDone, nil, nil
			}
			s.arrived = true
			return rArrived, nil, nil
		}
		in := f.block.Instrs[f.idx]
		x.nSteps++
		s.steps++
		if s.steps > x.opts.MaxSteps {
			x.incompleteAt("step limit of a path")
			if !x.hung && s.par == nil {
				// confirmed by the native run if it really does not finish
				x.hung = true
				x.violation(s, "does not finish", s.model)
			}
			return rDead, nil, nil
		}
		if len(s.threads) > 1 && x.isVisible(s, f, in) {
			if k := x.preemptFork(s); k != nil {
				return rFork, k, nil
			}
		}
		switch in := in.(type) {
		case *ssa.If:
			c := s.simp(x.get(s, f, in.Cond).(*Term))
			if c.isConst() {
				s.jump(x, f, f.block.Succs[1-int(c.val)])
				return rArrived, nil, nil
			}
			if x.opts.Verbose {
				x.trackFork(s)
			}
			blk := f.block
			a, b := x.forkOn(s, c)
			if a != nil && b != nil {
				a.jump(x, a.frame(), blk.Succs[0])
				b.jump(x, b.frame(), blk.Succs[1])
				if !x.opts.MergeOff && len(s.threads) == 1 && s.native["nomerge"] == nil {
					ms = &stopSpec{depth: s.depth(), block: f.info.ipdom[blk.Index]}
				}
				return rFork, []*State{a, b}, ms
			}
			if a != nil {
				a.jump(x, a.frame(), blk.Succs[0])
				return rFork, []*State{a}, nil
			}
			if b != nil {
				b.jump(x, b.frame(), blk.Succs[1])
				return rFork, []*State{b}, nil
			}
			return rDead, nil, nil
		case *ssa.Jump:
			s.jump(x, f, f.block.Succs[0])
			return rArrived, nil, nil
		case *ssa.Return:
			var rv Value
			switch len(in.Results) {
			case 0:
				rv = Tuple{}
			case 1:
				rv = x.get(s, f, in.Results[0])
			default:
				t := make(Tuple, len(in.Results))
				for i, r := range in.Results {
					t[i] = x.get(s, f, r)
				}
				rv = t
			}
			if x.doReturn(s, rv) {
				return rDone, nil, nil
			}
			s.arrived = true
			return rArrived, nil, nil
		case *ssa.Panic:
			v := x.get(s, f, in.X).(Iface)
			panic(goPanic{v})
		case *ssa.RunDefers:
			if len(f.defers) == 0 {
				f.idx++
				f.memo = nil
				continue
			}
			d := f.defers[len(f.defers)-1]
			n := s.depth()
			x.callDeferred(s, d)
			f.defers = f.defers[: len(f.defers)-1 : len(f.defers)-1]
			if s.depth() != n {
				return rArrived, nil, nil
			}
		case *ssa.Call:
			if x.execCall(s, f, in) {
				return rArrived, nil, nil
			}
		default:
			x.exec(s, f, in)
			f.idx++
			f.memo = nil
		}
		s.skipPre = false
	}
}

type forkStates struct{ list []*State }

func (x *X) trackFork(s *State) {
	x.forkSites[x.pos(s)]++
}

// forkOn splits s on c; nil for infeasible sides. s itself becomes one side.
func (x *X) forkOn(s *State, c *Term) (*State, *State) {
	ft, ff, mt, mf := x.sides(s, c)
	if ft && ff {
		if x.opts.Verbose {
			x.trackFork(s)
		}
		b := x.fork(s)
		s.addPC(c)
		s.setModel(mt)
		b.addPC(Not(c))
		b.setModel(mf)
		return s, b
	}
	if ft {
		s.known[c.id] = 1
		s.known[Not(c).id] = 0
		return s, nil
	}
	if ff {
		s.known[c.id] = 0
		s.known[Not(c).id] = 1
		return nil, s
	}
	return nil, nil
}

func (s *State) jump(x *X, f *Frame, to *ssa.BasicBlock) {
	f.prev = f.block
	f.block = to
	f.idx = 0
	f.memo = nil
	// evaluate phis in parallel
	n := 0
	for n < len(to.Instrs) {
		if _, ok := to.Instrs[n].(*ssa.Phi); !ok {
			break
		}
		n++
	}
	if n > 0 {
		pi := -1
		for i, p := range to.Preds {
			if p == f.prev {
				pi = i
				break
			}
		}
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			vals[i] = x.getOrNil(s, f, to.Instrs[i].(*ssa.Phi).Edges[pi])
		}
		for i := 0; i < n; i++ {
			x.set(f, to.Instrs[i].(*ssa.Phi), vals[i])
		}
	}
	f.idx = n
	s.arrived = true
}

func (x *X) getOrNil(st *State, f *Frame, v ssa.Value) Value {
	if i, ok := f.info.idx[v]; ok {
		return f.regs[i]
	}
	return x.get(st, f, v)
}

// deliver a return value to the caller; true if the thread (and path) ended
func (x *X) doReturn(s *State, rv Value) bool {
	th := s.th()
	f := s.frame()
	th.frames = th.frames[: len(th.frames)-1 : len(th.frames)-1]
	if len(th.frames) == 0 {
		return x.threadEnd(s)
	}
	g := s.frame()
	switch f.kind {
	case 0:
		if call, ok := g.block.Instrs[g.idx].(ssa.Value); ok {
			x.set(g, call, rv)
		}
		g.idx++
		g.memo = nil
	case 1:
		// deferred: caller re-executes RunDefers or continues unwinding
	case 2:
		if g.memo == nil {
			g.memo = map[string]Value{}
		}
		g.memo[f.key] = rv
	}
	return false
}

func (x *X) threadEnd(s *State) bool {
	th := s.th()
	th.done = true
	if s.cur == 0 {
		x.pathDone(s)
		return true
	}
	panic(blocked{})
}

func (s *State) startPanic(v Iface, where string) {
	f := s.frame()
	f.panicking = &panicRec{v: v, where: where}
	f.memo = nil
}

// one unwinding step; true if the path ended
func (x *X) unwind(s *State) bool {
	f := s.frame()
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		x.callDeferred(s, d)
		f.defers = f.defers[: n-1 : n-1]
		return false
	}
	if f.panicking.recovered {
		f.panicking = nil
		if f.fn.Recover != nil {
			f.prev = f.block
			f.block = f.fn.Recover
			f.idx = 0
			return false
		}
		res := f.fn.Signature.Results()
		var rv Value = Tuple{}
		if res.Len() == 1 {
			rv = zeroVal(res.At(0).Type())
		} else if res.Len() > 1 {
			rv = zeroVal(res)
		}
		return x.doReturn(s, rv)
	}
	th := s.th()
	rec := f.panicking
	if len(th.frames) == 1 {
		x.uncaught(s, rec)
		return true
	}
	th.frames = th.frames[: len(th.frames)-1 : len(th.frames)-1]
	g := s.frame()
	g.panicking = rec
	g.memo = nil
	return false
}

func (x *X) uncaught(s *State, rec *panicRec) {
	msg := "panic: " + x.showPanic(s, rec.v)
	if s.native["noviol"] != nil {
		return
	}
	key := msg + "@" + rec.where
	if x.violKeys[key] {
		return
	}
	x.violKeys[key] = true
	in, ord := x.inputs(s, s.model)
	x.viols = append(x.viols, &Violation{Msg: msg, Pos: rec.where, Inputs: in, Order: ord,
		Schedule: s.par != nil || hasPrefix(s.trace, "sched"), MapOrder: hasPrefix(s.trace, "maporder"), Trace: s.trace})
}

func (x *X) showPanic(s *State, v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch t := v.v.(type) {
	case *Str:
		r := make([]byte, t.Len())
		for i := range r {
			r[i] = byte(s.eval(t.At(i)))
		}
		return string(r)
	case Ptr:
		if t.obj != 0 {
			o := x.getObj(s, t.obj)
			if t.off < len(o.cells) {
				if str, ok := o.cells[t.off].(*Str); ok {
					return v.t.String() + " " + x.showPanic(s, Iface{v.t, str})
				}
			}
		}
	}
	return v.t.String() + " " + showVal(v.v)
}

// ---- calls

func (x *X) pushCall(s *State, c *Closure, args []Value, kind uint8, key string) {
	fn := c.fn
	if len(fn.Blocks) == 0 {
		panic(unsupported{"no body: " + fn.String()})
	}
	if s.depth() > 300 {
		panic(unsupported{"call depth"})
	}
	x.funcs[fn]++
	fi := x.info(fn)
	fr := &Frame{info: fi, fn: fn, block: fn.Blocks[0], regs: make([]Value, fi.n), kind: kind, key: key}
	if len(args) != len(fn.Params) {
		panic(unsupported{fmt.Sprintf("call of %s with %d args", fn, len(args))})
	}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], c.binds)
	th := s.th()
	th.frames = append(th.frames, fr)
}

// resolve the callee and evaluate arguments
func (x *X) prepare(s *State, f *Frame, cc *ssa.CallCommon) (*Closure, []Value) {
	var args []Value
	if cc.IsInvoke() {
		recv := x.get(s, f, cc.Value)
		ifc, ok := recv.(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", recv)})
		}
		if ifc.t == nil {
			x.nilDeref(s)
		}
		if n, ok := ifc.v.(*Native); ok {
			args = append(args, n)
			for _, a := range cc.Args {
				args = append(args, x.get(s, f, a))
			}
			return &Closure{native: nativeMethod(cc.Method.Name()), name: n.kind + "." + cc.Method.Name()}, args
		}
		fn := x.method(ifc.t, cc.Method)
		if fn == nil {
			panic(unsupported{"method " + cc.Method.Name() + " of " + ifc.t.String()})
		}
		args = append(args, ifc.v)
		for _, a := range cc.Args {
			args = append(args, x.get(s, f, a))
		}
		return &Closure{fn: fn}, args
	}
	for _, a := range cc.Args {
		args = append(args, x.get(s, f, a))
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		return &Closure{fn: v}, args
	}
	c, ok := x.get(s, f, cc.Value).(*Closure)
	if !ok {
		panic(unsupported{"call of non-function"})
	}
	if c == nil {
		x.nilDeref(s)
	}
	return c, args
}

func (x *X) method(t types.Type, m *types.Func) *ssa.Function {
	key := methKey{canon(t), m}
	if fn, ok := x.methCache[key]; ok {
		return fn
	}
	ms := x.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	var fn *ssa.Function
	if sel != nil {
		fn = x.prog.MethodValue(sel)
	}
	x.methCache[key] = fn
	return fn
}

func (x *X) methodByName(t types.Type, name string) *ssa.Function {
	ms := x.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

type methKey struct {
	t types.Type
	m *types.Func
}

// execCall runs a call instruction; true when control moved to another frame
func (x *X) execCall(s *State, f *Frame, in *ssa.Call) bool {
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(cc.Args))
		for i, a := range cc.Args {
			args[i] = x.get(s, f, a)
		}
		r := x.builtin(s, b, args, cc)
		x.set(f, in, r)
		f.idx++
		f.memo = nil
		return false
	}
	c, args := x.prepare(s, f, cc)
	if r, ok := x.tryNative(s, c, args, cc); ok {
		if f != s.frame() { // the native replaced the frame
			return true
		}
		x.set(f, in, r)
		f.idx++
		f.memo = nil
		return false
	}
	x.pushCall(s, c, args, 0, "")
	return true
}

// call an engine-side implementation if there is one
func (x *X) tryNative(s *State, c *Closure, args []Value, cc *ssa.CallCommon) (Value, bool) {
	if c.native != nil {
		return c.native(x, s, args), true
	}
	if c.fn == nil {
		panic(unsupported{"call of builtin value " + c.name})
	}
	if c.fn.Synthetic == "package initializer" && c.fn.Pkg != nil {
		// packages of the module are initialized eagerly, others when they are used
		if isModulePkg(c.fn.Pkg) {
			x.ensureInit(c.fn.Pkg)
		}
		return Tuple{}, true
	}
	if h := x.intrinsic(c.fn); h != nil {
		if len(s.threads) > 1 {
			x.syncPoint(s, c.fn)
		}
		r := h(x, s, args)
		if r == nil {
			r = Tuple{}
		}
		if _, ok := r.(fallThrough); ok {
			return nil, false
		}
		return r, true
	}
	return nil, false
}

// an intrinsic returns fallThrough to have the real body interpreted
type fallThrough struct{}

func (x *X) callDeferred(s *State, d *deferRec) {
	if d.blt != nil {
		x.builtin(s, d.blt, d.args, d.typ)
		return
	}
	if _, ok := x.tryNative(s, d.fn, d.args, d.typ); ok {
		return
	}
	x.pushCall(s, d.fn, d.args, 1, "")
}

// call back into interpreted code from an intrinsic
func (x *X) callback(s *State, key string, fn *Closure, args []Value) Value {
	f := s.frame()
	if v, ok := f.memo[key]; ok {
		return v
	}
	if r, ok := x.tryNative(s, fn, args, nil); ok {
		if f.memo == nil {
			f.memo = map[string]Value{}
		}
		f.memo[key] = r
		return r
	}
	panic(needCall{key, fn, args})
}

func (x *X) callMethod(s *State, key string, recv Iface, name string, args ...Value) Value {
	if n, ok := recv.v.(*Native); ok {
		return nativeMethod(name)(x, s, append([]Value{n}, args...))
	}
	fn := x.methodByName(recv.t, name)
	if fn == nil {
		panic(unsupported{"method " + name + " of " + recv.t.String()})
	}
	return x.callback(s, key, &Closure{fn: fn}, append([]Value{recv.v}, args...))
}

// ---- instructions without control flow

func (x *X) exec(s *State, f *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		id := x.alloc(s, in.Type().Underlying().(*types.Pointer).Elem(), 1)
		x.sites[id] = in
		x.set(f, in, Ptr{id, 0})
	case *ssa.Store:
		x.store(s, x.get(s, f, in.Addr), in.Val.Type(), x.get(s, f, in.Val))
	case *ssa.UnOp:
		x.set(f, in, x.unop(s, f, in))
	case *ssa.BinOp:
		x.set(f, in, x.binop(s, in.Op, x.get(s, f, in.X), x.get(s, f, in.Y), in.X.Type(), in.Y.Type()))
	case *ssa.ChangeType:
		x.set(f, in, x.get(s, f, in.X))
	case *ssa.Convert:
		x.set(f, in, x.convert(s, x.get(s, f, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		x.set(f, in, x.convert(s, x.get(s, f, in.X), in.X.Type(), in.Type()))
	case *ssa.ChangeInterface:
		x.set(f, in, x.get(s, f, in.X))
	case *ssa.MakeInterface:
		x.set(f, in, Iface{canon(in.X.Type()), x.get(s, f, in.X)})
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.get(s, f, b))
		}
		x.set(f, in, c)
	case *ssa.MakeMap:
		x.set(f, in, x.newMap(s, in.Type()))
	case *ssa.MakeSlice:
		n := x.sizeInt(s, idx64(x.get(s, f, in.Len).(*Term), in.Len.Type()), 1<<40, "makeslice: len out of range")
		c := x.sizeInt(s, idx64(x.get(s, f, in.Cap).(*Term), in.Cap.Type()), 1<<40, "makeslice: cap out of range")
		if n < 0 || n > 1<<40 {
			x.throw(s, "makeslice: len out of range")
		}
		if c < n || c > 1<<40 {
			x.throw(s, "makeslice: cap out of range")
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		if c*ncells(el) > 1<<24 {
			panic(unsupported{"very large make"})
		}
		id := x.alloc(s, el, c)
		x.sites[id] = in
		x.set(f, in, Slice{id, 0, n, c})
	case *ssa.Slice:
		x.set(f, in, x.slice(s, f, in))
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		off := layout(st.Underlying()).offs[in.Field]
		switch p := x.get(s, f, in.X).(type) {
		case Ptr:
			if p.obj == 0 {
				x.nilDeref(s)
			}
			x.set(f, in, Ptr{p.obj, p.off + off})
		case SymPtr:
			p.sub += off
			x.set(f, in, p)
		default:
			panic(unsupported{fmt.Sprintf("field address of %T", p)})
		}
	case *ssa.Field:
		a, ok := x.get(s, f, in.X).(Agg)
		if !ok {
			panic(unsupported{"field of opaque value"})
		}
		off := layout(in.X.Type().Underlying()).offs[in.Field]
		n := ncells(in.Type())
		x.set(f, in, fromCells(in.Type(), a[off:off+n]))
	case *ssa.IndexAddr:
		x.set(f, in, x.indexAddr(s, f, in))
	case *ssa.Index:
		x.set(f, in, x.index(s, f, in))
	case *ssa.Lookup:
		x.set(f, in, x.lookup(s, f, in))
	case *ssa.MapUpdate:
		m := x.get(s, f, in.Map).(MapRef)
		x.mapSet(s, m, x.get(s, f, in.Key), x.get(s, f, in.Value))
	case *ssa.Range:
		x.set(f, in, x.rangeStart(s, f, in))
	case *ssa.Next:
		x.set(f, in, x.next(s, f, in))
	case *ssa.Extract:
		x.set(f, in, x.get(s, f, in.Tuple).(Tuple)[in.Index])
	case *ssa.TypeAssert:
		x.set(f, in, x.typeAssert(s, x.get(s, f, in.X), in.AssertedType, in.CommaOk))
	case *ssa.Defer:
		cc := in.Common()
		d := &deferRec{typ: cc}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			d.blt = b
			for _, a := range cc.Args {
				d.args = append(d.args, x.get(s, f, a))
			}
		} else {
			d.fn, d.args = x.prepare(s, f, cc)
		}
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
	case *ssa.SliceToArrayPointer:
		v := x.get(s, f, in.X).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int(n) > v.len {
			x.throw(s, "cannot convert slice to array pointer")
		}
		x.set(f, in, Ptr{v.obj, v.off})
	case *ssa.MakeChan:
		n := x.sizeInt(s, idx64(x.get(s, f, in.Size).(*Term), in.Size.Type()), 1<<16, "makechan: size out of range")
		if n < 0 {
			x.throw(s, "makechan: size out of range")
		}
		x.set(f, in, x.makeChan(s, n, in.Type()))
	case *ssa.Send:
		x.chanSend(s, f, in)
	case *ssa.Select:
		x.set(f, in, x.chanSelect(s, f, in))
	case *ssa.Go:
		if _, ok := f.memo["go"]; ok {
			return
		}
		c, args := x.prepare(s, f, in.Common())
		x.spawn(s, c, args)
		if s.par == nil {
			// without Parallel: the goroutine starts at once or when this one waits
			f.memoSet("go", tTrue)
			k := x.fork(s)
			k.cur = len(k.threads) - 1
			panic(forkStates{[]*State{s, k}})
		}
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
}

func (x *X) unop(s *State, f *Frame, in *ssa.UnOp) Value {
	if in.Op == token.ARROW {
		return x.chanRecv(s, f, in)
	}
	v := x.get(s, f, in.X)
	switch in.Op {
	case token.MUL:
		return x.load(s, v, in.Type())
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		if fl, ok := v.(float64); ok {
			return -fl
		}
		return Neg(v.(*Term))
	case token.XOR:
		return BNot(v.(*Term))
	}
	panic(unsupported{"unary " + in.Op.String()})
}

func shiftCount(b *Term, w uint8) (*Term, *Term) {
	// returns count in width w and the condition count >= w
	big := Not(Ult(b, Const(b.w, uint64(w))))
	if b.w < 8 && b.w != 0 {
		big = tFalse
	}
	var c *Term
	switch {
	case b.w == w:
		c = b
	case b.w < w:
		c = Zext(b, w)
	default:
		c = Extract(b, 0, w)
	}
	return c, big
}

func (x *X) binop(s *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	switch op {
	case token.EQL:
		return x.equal(s, a, b, ta)
	case token.NEQ:
		return Not(x.equal(s, a, b, ta))
	}
	switch p := a.(type) {
	case *Str:
		q := b.(*Str)
		switch op {
		case token.ADD:
			return concatStr(p, q)
		case token.LSS:
			return strLess(p, q, false)
		case token.LEQ:
			return strLess(p, q, true)
		case token.GTR:
			return strLess(q, p, false)
		case token.GEQ:
			return strLess(q, p, true)
		}
	case float64:
		q := b.(float64)
		switch op {
		case token.ADD:
			return p + q
		case token.SUB:
			return p - q
		case token.MUL:
			return p * q
		case token.QUO:
			return p / q
		case token.LSS:
			return BoolT(p < q)
		case token.LEQ:
			return BoolT(p <= q)
		case token.GTR:
			return BoolT(p > q)
		case token.GEQ:
			return BoolT(p >= q)
		}
	case *Term:
		q := b.(*Term)
		sg := isSigned(ta)
		switch op {
		case token.ADD:
			return Add(p, q)
		case token.SUB:
			return Sub(p, q)
		case token.MUL:
			return Mul(p, q)
		case token.QUO, token.REM:
			if x.decide(s, Eq(q, Const(q.w, 0))) {
				x.throw(s, "integer divide by zero")
			}
			switch {
			case op == token.QUO && sg:
				return SDiv(p, q)
			case op == token.QUO:
				return UDiv(p, q)
			case sg:
				return SRem(p, q)
			}
			return URem(p, q)
		case token.AND:
			if p.w == 0 {
				return And(p, q)
			}
			return BAnd(p, q)
		case token.OR:
			if p.w == 0 {
				return Or(p, q)
			}
			return BOr(p, q)
		case token.XOR:
			return BXor(p, q)
		case token.AND_NOT:
			return BAnd(p, BNot(q))
		case token.SHL, token.SHR:
			if isSigned(tb) && !q.isConst() || q.isConst() && isSigned(tb) && sext64(q.val, q.w) < 0 {
				if x.decide(s, Slt(q, Const(q.w, 0))) {
					x.throw(s, "negative shift amount")
				}
			}
			c, big := shiftCount(q, p.w)
			switch {
			case op == token.SHL:
				return Ite(big, Const(p.w, 0), Shl(p, c))
			case sg:
				return Ite(big, Ite(Slt(p, Const(p.w, 0)), Const(p.w, mask(p.w)), Const(p.w, 0)), AShr(p, c))
			}
			return Ite(big, Const(p.w, 0), LShr(p, c))
		case token.LSS:
			if sg {
				return Slt(p, q)
			}
			return Ult(p, q)
		case token.LEQ:
			if sg {
				return Sle(p, q)
			}
			return Ule(p, q)
		case token.GTR:
			if sg {
				return Slt(q, p)
			}
			return Ult(q, p)
		case token.GEQ:
			if sg {
				return Sle(q, p)
			}
			return Ule(q, p)
		}
	}
	panic(unsupported{fmt.Sprintf("binary %s on %T", op, a)})
}

func strEq(a, b *Str) *Term {
	if a.Len() != b.Len() {
		return tFalse
	}
	if a.b == nil && b.b == nil {
		return BoolT(a.s == b.s)
	}
	r := tTrue
	for i := a.Len() - 1; i >= 0; i-- {
		r = And(Eq(a.At(i), b.At(i)), r)
		if r == tFalse {
			return r
		}
	}
	return r
}

func strLess(a, b *Str, orEq bool) *Term {
	n := min(a.Len(), b.Len())
	r := BoolT(a.Len() < b.Len() || orEq && a.Len() == b.Len())
	for i := n - 1; i >= 0; i-- {
		p, q := a.At(i), b.At(i)
		r = Or(Ult(p, q), And(Eq(p, q), r))
	}
	return r
}

func (x *X) equal(s *State, a, b Value, t types.Type) *Term {
	switch p := a.(type) {
	case *Term:
		return Eq(p, b.(*Term))
	case *Str:
		return strEq(p, b.(*Str))
	case float64:
		return BoolT(p == b.(float64))
	case Ptr:
		switch q := b.(type) {
		case Ptr:
			return BoolT(p == q)
		case *Native:
			return tFalse
		}
	case *Native:
		return BoolT(a == b)
	case Slice: // comparison with nil
		q := b.(Slice)
		return BoolT(p.obj == 0 && q.obj == 0)
	case MapRef:
		return BoolT(p == b.(MapRef))
	case ChanRef:
		return BoolT(p == b.(ChanRef))
	case *Closure:
		q, _ := b.(*Closure)
		return BoolT(p == nil && q == nil)
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			return tFalse
		}
		if p.t == nil || q.t == nil {
			return BoolT(p.t == nil && q.t == nil)
		}
		if canon(p.t) != canon(q.t) {
			return tFalse
		}
		switch p.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			x.throw(s, "comparing uncomparable type "+p.t.String())
		}
		return x.equal(s, p.v, q.v, p.t)
	case Agg:
		q := b.(Agg)
		r := tTrue
		for i := range p {
			r = And(r, x.equal(s, p[i], q[i], nil))
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("comparison of %T and %T", a, b)})
}

func (x *X) convert(s *State, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch p := v.(type) {
			case *Str:
				return p
			case *Term: // rune to string
				return x.runeStr(s, p, isSigned(from))
			case Slice:
				el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					return mkStr(x.sliceBytes(s, p))
				}
				var b []*Term
				if p.len > 0 {
					o := x.getObj(s, p.obj)
					for i := 0; i < p.len; i++ {
						b = append(b, x.runeBytes(s, o.cells[p.off+i].(*Term))...)
					}
				}
				return mkStr(b)
			}
		case t.Kind() == types.UnsafePointer:
			return v
		case t.Info()&types.IsInteger != 0:
			w := widthOf(t)
			switch p := v.(type) {
			case *Term:
				switch {
				case p.w == w:
					return p
				case p.w > w:
					return Extract(p, 0, w)
				case isSigned(from):
					return Sext(p, w)
				}
				return Zext(p, w)
			case float64:
				if isSigned(to) {
					return Const(w, uint64(int64(p)))
				}
				return Const(w, uint64(p))
			case Ptr: // uintptr(unsafe.Pointer)
				if p.obj == 0 {
					return Const(64, 0)
				}
				return Const(64, uint64(p.obj)<<24+uint64(p.off)*8)
			}
		case t.Info()&types.IsFloat != 0:
			switch p := v.(type) {
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(p))
				}
				return p
			case *Term:
				c := x.concretize(s, p)
				if isSigned(from) {
					return float64(sext64(c, p.w))
				}
				return float64(c)
			}
		}
	case *types.Slice:
		if str, ok := v.(*Str); ok {
			el := t.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				if str.Len() == 0 {
					return x.newBytes(s, nil)
				}
				return x.newBytes(s, str.Bytes())
			}
			rs := x.runes(s, str)
			cells := make([]Value, len(rs))
			for i, r := range rs {
				cells[i] = r
			}
			id := x.newObj(s, &Obj{elem: t.Elem(), cells: cells})
			return Slice{id, 0, len(cells), len(cells)}
		}
		return v
	case *types.Pointer:
		return v
	}
	panic(unsupported{fmt.Sprintf("conversion %s to %s", from, to)})
}

// decode the rune at position i
func (x *X) decodeRune(s *State, str *Str, i int) (*Term, int) {
	b := str.At(i)
	if b.isConst() && b.val < 0x80 {
		return Const(32, b.val), 1
	}
	if !b.isConst() {
		if b.hi < 0x80 || x.decide(s, Ult(b, Const(8, 0x80))) {
			return Zext(b, 32), 1
		}
	}
	if !b.isConst() && b.hi-b.lo >= 128 {
		// arbitrary bytes: decide about the length instead of the values
		in := func(k int, lo, hi uint64) *Term {
			c := str.At(i + k)
			return And(Ule(Const(8, lo), c), Ule(c, Const(8, hi)))
		}
		part := func(k int, mask uint64, shift int) *Term {
			return Shl(BAnd(Zext(str.At(i+k), 32), Const(32, mask)), Const(32, uint64(shift)))
		}
		left := str.Len() - i
		if left > 1 && x.decide(s, And(in(0, 0xC2, 0xDF), in(1, 0x80, 0xBF))) {
			return BOr(part(0, 0x1f, 6), part(1, 0x3f, 0)), 2
		}
		if left > 2 {
			ok := Or(And(in(0, 0xE0, 0xE0), in(1, 0xA0, 0xBF)), And(in(0, 0xED, 0xED), in(1, 0x80, 0x9F)))
			ok = Or(ok, And(Or(in(0, 0xE1, 0xEC), in(0, 0xEE, 0xEF)), in(1, 0x80, 0xBF)))
			if x.decide(s, And(ok, in(2, 0x80, 0xBF))) {
				return BOr(BOr(part(0, 0xf, 12), part(1, 0x3f, 6)), part(2, 0x3f, 0)), 3
			}
		}
		if left > 3 {
			ok := Or(And(in(0, 0xF0, 0xF0), in(1, 0x90, 0xBF)), And(in(0, 0xF4, 0xF4), in(1, 0x80, 0x8F)))
			ok = Or(ok, And(in(0, 0xF1, 0xF3), in(1, 0x80, 0xBF)))
			if x.decide(s, And(ok, And(in(2, 0x80, 0xBF), in(3, 0x80, 0xBF)))) {
				return BOr(BOr(part(0, 0x7, 18), part(1, 0x3f, 12)), BOr(part(2, 0x3f, 6), part(3, 0x3f, 0))), 4
			}
		}
		return Const(32, uint64(uint32(utf8.RuneError))), 1
	}
	if lead := x.concretize(s, b); lead >= 0xC2 && lead <= 0xDF && i+1 < str.Len() {
		c := str.At(i + 1)
		if !c.isConst() && (c.lo >= 0x80 && c.hi < 0xC0 || x.decide(s, And(Ule(Const(8, 0x80), c), Ult(c, Const(8, 0xC0))))) {
			return Add(Zext(c, 32), Const(32, (lead&0x1f)<<6-0x80)), 2
		}
	}
	var buf [4]byte
	n := 0
	for n < 4 && i+n < str.Len() {
		buf[n] = byte(x.concretize(s, str.At(i+n)))
		n++
		if utf8.FullRune(buf[:n]) {
			break
		}
	}
	r, sz := utf8.DecodeRune(buf[:n])
	return Const(32, uint64(uint32(r))), sz
}

func (x *X) runes(s *State, str *Str) []*Term {
	var r []*Term
	for i := 0; i < str.Len(); {
		t, n := x.decodeRune(s, str, i)
		r = append(r, t)
		i += n
	}
	return r
}

func (x *X) runeBytes(s *State, r *Term) []*Term {
	if !r.isConst() {
		if r.hi < 0x80 || x.decide(s, Ult(r, Const(32, 0x80))) {
			return []*Term{Extract(r, 0, 8)}
		}
		if r.lo >= 0x80 && r.hi < 0x800 || x.decide(s, Ult(r, Const(32, 0x800))) {
			return []*Term{BOr(Extract(r, 6, 8), Const(8, 0xC0)), BOr(BAnd(Extract(r, 0, 8), Const(8, 0x3f)), Const(8, 0x80))}
		}
	}
	if !r.isConst() && r.hi-r.lo >= 0x1000 {
		cont := func(lo uint64) *Term {
			return BOr(BAnd(Extract(r, lo, 8), Const(8, 0x3f)), Const(8, 0x80))
		}
		in := func(lo, hi uint64) *Term { return And(Ule(Const(32, lo), r), Ule(r, Const(32, hi))) }
		switch {
		case x.decide(s, Or(in(0x800, 0xD7FF), in(0xE000, 0xFFFF))):
			return []*Term{BOr(Extract(r, 12, 8), Const(8, 0xE0)), cont(6), cont(0)}
		case x.decide(s, in(0x10000, 0x10FFFF)):
			return []*Term{BOr(Extract(r, 18, 8), Const(8, 0xF0)), cont(12), cont(6), cont(0)}
		}
		return []*Term{byteConst[0xEF], byteConst[0xBF], byteConst[0xBD]}
	}
	c := int32(x.concretize(s, r))
	var out []*Term
	for _, b := range []byte(string(rune(c))) {
		out = append(out, byteConst[b])
	}
	return out
}

func (x *X) runeStr(s *State, t *Term, signed bool) *Str {
	if t.w > 32 {
		if !t.isConst() {
			c := x.concretize(s, t)
			t = Const(64, c)
		}
		v := int64(t.val)
		if v < 0 || v > 0x10ffff {
			return cstr("\uFFFD")
		}
		return cstr(string(rune(v)))
	}
	if t.w < 32 {
		if signed {
			t = Sext(t, 32)
		} else {
			t = Zext(t, 32)
		}
	}
	return mkStr(x.runeBytes(s, t))
}

// ---- indexing

func (x *X) boundsCheck(s *State, idx *Term, n int) *Term {
	idx = s.simp(idx)
	if idx.w < 64 {
		idx = Zext(idx, 64)
	}
	if idx.isConst() {
		if sext64(idx.val, idx.w) < 0 || idx.val >= uint64(n) {
			x.throw(s, fmt.Sprintf("index out of range [%d] with length %d", sext64(idx.val, idx.w), n))
		}
		return idx
	}
	if !x.decide(s, Ult(idx, Const(64, uint64(n)))) {
		x.throw(s, "index out of range")
	}
	return idx
}

func idx64(t *Term, typ types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(typ) {
		return Sext(t, 64)
	}
	return Zext(t, 64)
}

func (x *X) indexAddr(s *State, f *Frame, in *ssa.IndexAddr) Value {
	v := x.get(s, f, in.X)
	idx := idx64(x.get(s, f, in.Index).(*Term), in.Index.Type())
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		sl := v.(Slice)
		idx = x.boundsCheck(s, idx, sl.len)
		n := ncells(t.Elem())
		if idx.isConst() {
			return Ptr{sl.obj, sl.off + int(idx.val)*n}
		}
		return SymPtr{sl.obj, sl.off, n, sl.len, idx, 0}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported{"nested symbolic index"})
		}
		if p.obj == 0 {
			x.nilDeref(s)
		}
		idx = x.boundsCheck(s, idx, int(at.Len()))
		n := ncells(at.Elem())
		if idx.isConst() {
			return Ptr{p.obj, p.off + int(idx.val)*n}
		}
		return SymPtr{p.obj, p.off, n, int(at.Len()), idx, 0}
	}
	panic(unsupported{"index address of " + in.X.Type().String()})
}

func (x *X) strAt(s *State, str *Str, idx *Term) *Term {
	idx = x.boundsCheck(s, idx, str.Len())
	if idx.isConst() {
		return str.At(int(idx.val))
	}
	lo, hi := x.idxRange(idx, str.Len())
	r := str.At(hi)
	for i := hi - 1; i >= lo; i-- {
		r = Ite(Eq(idx, Const(idx.w, uint64(i))), str.At(i), r)
	}
	return r
}

func (x *X) index(s *State, f *Frame, in *ssa.Index) Value {
	v := x.get(s, f, in.X)
	idx := idx64(x.get(s, f, in.Index).(*Term), in.Index.Type())
	switch v := v.(type) {
	case *Str:
		return x.strAt(s, v, idx)
	case Agg:
		at := in.X.Type().Underlying().(*types.Array)
		idx = x.boundsCheck(s, idx, int(at.Len()))
		n := ncells(at.Elem())
		if !idx.isConst() && n == 1 {
			if _, ok := v[0].(*Term); ok {
				r := v[len(v)-1].(*Term)
				for i := len(v) - 2; i >= 0; i-- {
					r = Ite(Eq(idx, Const(idx.w, uint64(i))), v[i].(*Term), r)
				}
				return r
			}
		}
		i := int(x.concretize(s, idx))
		return fromCells(at.Elem(), v[i*n:(i+1)*n])
	}
	panic(unsupported{"index of " + in.X.Type().String()})
}

// sizeInt makes a size or slice bound concrete; values outside 0…limit panic,
// they are set aside by a single query before the others are told apart.
func (x *X) sizeInt(s *State, t *Term, limit int, msg string) int {
	t = s.simp(t)
	if !t.isConst() && !x.decide(s, Ult(t, Const(64, uint64(limit)+1))) {
		x.throw(s, msg)
	}
	return x.concInt(s, t)
}

func (x *X) slice(s *State, f *Frame, in *ssa.Slice) Value {
	v := x.get(s, f, in.X)
	opt := func(o ssa.Value, def, limit int) int {
		if o == nil {
			return def
		}
		return x.sizeInt(s, idx64(x.get(s, f, o).(*Term), o.Type()), limit, "slice bounds out of range")
	}
	switch p := v.(type) {
	case *Str:
		lo := opt(in.Low, 0, p.Len())
		hi := opt(in.High, p.Len(), p.Len())
		if lo < 0 || hi < lo || hi > p.Len() {
			x.throw(s, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, p.Len()))
		}
		return p.Sub(lo, hi)
	case Slice:
		el := in.X.Type().Underlying().(*types.Slice).Elem()
		lo := opt(in.Low, 0, p.cap)
		hi := opt(in.High, p.len, p.cap)
		mx := opt(in.Max, p.cap, p.cap)
		if lo < 0 || hi < lo || hi > mx || mx > p.cap {
			x.throw(s, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, p.cap))
		}
		if p.obj == 0 {
			return p
		}
		return Slice{p.obj, p.off + lo*ncells(el), hi - lo, mx - lo}
	case Ptr:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if p.obj == 0 {
			x.nilDeref(s)
		}
		n := int(at.Len())
		lo := opt(in.Low, 0, n)
		hi := opt(in.High, n, n)
		mx := opt(in.Max, n, n)
		if lo < 0 || hi < lo || hi > mx || mx > n {
			x.throw(s, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, n))
		}
		return Slice{p.obj, p.off + lo*ncells(at.Elem()), hi - lo, mx - lo}
	}
	panic(unsupported{fmt.Sprintf("slice of %T", v)})
}

// ---- maps

func (x *X) newMap(s *State, t types.Type) MapRef {
	id := x.newObj(s, &Obj{elem: t, m: &MapData{}})
	return MapRef{id}
}

func mapKey(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() {
			return fmt.Sprintf("i%d", v.val), true
		}
	case *Str:
		if v.b == nil {
			return "s" + v.s, true
		}
	case Ptr:
		return fmt.Sprintf("p%d.%d", v.obj, v.off), true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := mapKey(v.v)
		return canon(v.t).String() + k, ok
	case Agg:
		r := "a"
		for _, e := range v {
			k, ok := mapKey(e)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return r, true
	case float64:
		return fmt.Sprint("f", v), true
	}
	return "", false
}

// position of the key, -1 if absent; may fork
func (x *X) mapFind(s *State, o *Obj, k Value) int {
	m := o.m
	ks, conc := mapKey(k)
	if conc && (m.idx != nil || len(m.ents) == 0) {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		return -1
	}
	for i, e := range m.ents {
		c := x.equal(s, k, e.k, nil)
		if x.decide(s, c) {
			return i
		}
	}
	return -1
}

func (x *X) mapGet(s *State, m MapRef, k Value) (Value, bool) {
	if m.obj == 0 {
		return nil, false
	}
	o := x.getObj(s, m.obj)
	if i := x.mapFind(s, o, k); i >= 0 {
		return o.m.ents[i].v, true
	}
	return nil, false
}

func (x *X) mapSet(s *State, m MapRef, k, v Value) {
	if m.obj == 0 {
		x.throwPlain(s, "assignment to entry in nil map")
	}
	o := x.getObj(s, m.obj)
	i := x.mapFind(s, o, k)
	o = x.wObj(s, m.obj)
	if i >= 0 {
		o.m.ents[i].v = v
		return
	}
	ks, conc := mapKey(k)
	if conc && (o.m.idx != nil || len(o.m.ents) == 0) {
		if o.m.idx == nil {
			o.m.idx = map[string]int{}
		}
		o.m.idx[ks] = len(o.m.ents)
	} else {
		o.m.idx = nil
	}
	o.m.ents = append(o.m.ents, MapEntry{k, v})
	x.publish(s, o, k, v)
}

func (x *X) mapDelete(s *State, m MapRef, k Value) {
	if m.obj == 0 {
		return
	}
	o := x.getObj(s, m.obj)
	i := x.mapFind(s, o, k)
	if i < 0 {
		return
	}
	o = x.wObj(s, m.obj)
	o.m.ents = append(o.m.ents[:i:i], o.m.ents[i+1:]...)
	if o.m.idx != nil {
		o.m.idx = map[string]int{}
		for i, e := range o.m.ents {
			ks, _ := mapKey(e.k)
			o.m.idx[ks] = i
		}
	}
}

func (x *X) throwPlain(s *State, msg string) { x.throw(s, msg) }

func (x *X) lookup(s *State, f *Frame, in *ssa.Lookup) Value {
	v := x.get(s, f, in.X)
	k := x.get(s, f, in.Index)
	if str, ok := v.(*Str); ok {
		return x.strAt(s, str, idx64(k.(*Term), in.Index.Type()))
	}
	mt := in.X.Type().Underlying().(*types.Map)
	r, ok := x.mapGet(s, v.(MapRef), k)
	if !ok {
		r = zeroVal(mt.Elem())
	}
	if in.CommaOk {
		return Tuple{r, BoolT(ok)}
	}
	return r
}

func (x *X) rangeStart(s *State, f *Frame, in *ssa.Range) Value {
	v := x.get(s, f, in.X)
	it := &MapIter{}
	switch v := v.(type) {
	case *Str:
		it.str = v
	case MapRef:
		if v.obj != 0 {
			o := x.getObj(s, v.obj)
			it.m = v.obj
			var keys []Value
			for _, e := range o.m.ents {
				keys = append(keys, e.k)
			}
			it.keys = x.mapOrder(s, keys)
		}
	default:
		panic(unsupported{fmt.Sprintf("range over %T", v)})
	}
	id := x.newObj(s, &Obj{elem: types.Typ[types.Int], it: it})
	return MapRef{id}
}

// choose an iteration order
func (x *X) mapOrder(s *State, keys []Value) []Value {
	n := len(keys)
	if n < 2 || x.opts.MapOrders < 2 || x.initing > 0 {
		return keys
	}
	f := s.frame()
	pick := 0
	if v, ok := f.memo["maporder"]; ok {
		pick = int(v.(*Term).val)
	} else {
		// fork over the orders
		var perms int
		if n <= 3 {
			perms = 1
			for i := 2; i <= n; i++ {
				perms *= i
			}
		} else {
			perms = 2
		}
		if perms > x.opts.MapOrders {
			perms = x.opts.MapOrders
		}
		var kids []*State
		for p := 0; p < perms; p++ {
			k := s
			if p < perms-1 {
				k = x.fork(s)
			}
			fr := k.frame()
			if fr.memo == nil {
				fr.memo = map[string]Value{}
			}
			fr.memo["maporder"] = Const(64, uint64(p))
			if p > 0 {
				k.trace = append(k.trace, fmt.Sprintf("maporder %d at %s", p, x.pos(k)))
			}
			kids = append(kids, k)
		}
		panic(forkStates{kids})
	}
	r := make([]Value, n)
	if n <= 3 && x.opts.MapOrders >= 6 || n == 2 {
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		// pick-th permutation
		rest := idx
		for i := 0; i < n; i++ {
			fct := 1
			for k := 2; k <= n-1-i; k++ {
				fct *= k
			}
			q := pick / fct % len(rest)
			r[i] = keys[rest[q]]
			rest = append(append([]int(nil), rest[:q]...), rest[q+1:]...)
		}
		return r
	}
	for i := range keys {
		if pick == 0 {
			r[i] = keys[i]
		} else {
			r[i] = keys[n-1-i]
		}
	}
	return r
}

func (x *X) next(s *State, f *Frame, in *ssa.Next) Value {
	ref := x.get(s, f, in.Iter).(MapRef)
	o := x.getObj(s, ref.obj)
	it := o.it
	if in.IsString {
		if it.spos >= it.str.Len() {
			return Tuple{tFalse, Const(64, 0), Const(32, 0)}
		}
		r, n := x.decodeRune(s, it.str, it.spos)
		p := it.spos
		w := x.wObj(s, ref.obj)
		w.it.spos += n
		return Tuple{tTrue, Const(64, uint64(p)), r}
	}
	tt := in.Type().(*types.Tuple)
	for pos := it.pos; pos < len(it.keys); pos++ {
		k := it.keys[pos]
		mo := x.getObj(s, it.m)
		// entry may have been deleted meanwhile
		for _, e := range mo.m.ents {
			if sameVal(e.k, k) {
				w := x.wObj(s, ref.obj)
				w.it.pos = pos + 1
				return Tuple{tTrue, k, e.v}
			}
		}
	}
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return Tuple{}
		}
		return zeroVal(t)
	}
	return Tuple{tFalse, z(tt.At(1).Type()), z(tt.At(2).Type())}
}

func (x *X) typeAssert(s *State, v Value, to types.Type, commaOk bool) Value {
	ifc := v.(Iface)
	ok := false
	if ifc.t != nil {
		if it, isI := to.Underlying().(*types.Interface); isI {
			if n, isN := ifc.v.(*Native); isN {
				_ = n
				ok = true
			} else {
				ok = types.Implements(ifc.t, it)
			}
		} else {
			ok = canon(ifc.t) == canon(to)
		}
	}
	var r Value
	if ok {
		if types.IsInterface(to) {
			r = ifc
		} else {
			r = ifc.v
		}
	} else {
		r = zeroVal(to)
	}
	if commaOk {
		return Tuple{r, BoolT(ok)}
	}
	if !ok {
		tn := "nil"
		if ifc.t != nil {
			tn = ifc.t.String()
		}
		x.throw(s, "interface conversion: interface is "+tn+", not "+to.String())
	}
	return r
}

// ---- builtins

func (x *X) builtin(s *State, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *Str:
			return Const(64, uint64(v.Len()))
		case Slice:
			return Const(64, uint64(v.len))
		case MapRef:
			if v.obj == 0 {
				return Const(64, 0)
			}
			return Const(64, uint64(len(x.getObj(s, v.obj).m.ents)))
		case ChanRef:
			if v.obj == 0 {
				return Const(64, 0)
			}
			d := x.chanData(s, v, false)
			if d.cap == 0 {
				return Const(64, 0)
			}
			return Const(64, uint64(len(d.queue)))
		case Agg:
			return Const(64, uint64(cc.Args[0].Type().Underlying().(*types.Array).Len()))
		case Ptr:
			return Const(64, uint64(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch v := args[0].(type) {
		case ChanRef:
			if v.obj == 0 {
				return Const(64, 0)
			}
			return Const(64, uint64(x.chanData(s, v, false).cap))
		case Slice:
			return Const(64, uint64(v.cap))
		case Ptr:
			return Const(64, uint64(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "append":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		dst := args[0].(Slice)
		n := ncells(st.Elem())
		var add []Value
		cnt := 0
		switch v := args[1].(type) {
		case *Str:
			cnt = v.Len()
			for _, t := range v.Bytes() {
				add = append(add, t)
			}
		case Slice:
			cnt = v.len
			if cnt > 0 {
				add = append(add, x.getObj(s, v.obj).cells[v.off:v.off+cnt*n]...)
			}
		}
		if cnt == 0 {
			return dst
		}
		if dst.len+cnt <= dst.cap {
			o := x.wObj(s, dst.obj)
			copy(o.cells[dst.off+dst.len*n:], add)
			x.publish(s, o, add...)
			return Slice{dst.obj, dst.off, dst.len + cnt, dst.cap}
		}
		nc := growCap(dst.cap, dst.len+cnt, st.Elem())
		cells := make([]Value, nc*n)
		if dst.len > 0 {
			copy(cells, x.getObj(s, dst.obj).cells[dst.off:dst.off+dst.len*n])
		}
		copy(cells[dst.len*n:], add)
		if n > 0 && nc > dst.len+cnt {
			z := cells[(dst.len+cnt)*n:]
			zeroCells(st.Elem(), z[:n])
			for i := n; i < len(z); i += n {
				copy(z[i:i+n], z[:n])
			}
		}
		id := x.newObj(s, &Obj{elem: st.Elem(), cells: cells})
		if f := s.frame(); f.idx < len(f.block.Instrs) {
			x.sites[id] = f.block.Instrs[f.idx]
		}
		return Slice{id, 0, dst.len + cnt, nc}
	case "copy":
		dst := args[0].(Slice)
		n := ncells(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		switch v := args[1].(type) {
		case *Str:
			k := min(dst.len, v.Len())
			if k > 0 {
				o := x.wObj(s, dst.obj)
				for i := 0; i < k; i++ {
					o.cells[dst.off+i] = v.At(i)
				}
			}
			return Const(64, uint64(k))
		case Slice:
			k := min(dst.len, v.len)
			if k > 0 && !(dst.obj == v.obj && dst.off == v.off) {
				src := append([]Value(nil), x.getObj(s, v.obj).cells[v.off:v.off+k*n]...)
				o := x.wObj(s, dst.obj)
				copy(o.cells[dst.off:], src)
				x.publish(s, o, src...)
			}
			return Const(64, uint64(k))
		}
	case "delete":
		x.mapDelete(s, args[0].(MapRef), args[1])
		return Tuple{}
	case "clear":
		switch v := args[0].(type) {
		case MapRef:
			if v.obj != 0 {
				o := x.wObj(s, v.obj)
				o.m = &MapData{}
			}
		case Slice:
			if v.len > 0 {
				el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
				n := ncells(el)
				o := x.wObj(s, v.obj)
				for i := 0; i < v.len; i++ {
					zeroCells(el, o.cells[v.off+i*n:v.off+(i+1)*n])
				}
			}
		}
		return Tuple{}
	case "close":
		x.chanClose(s, args[0].(ChanRef))
		return Tuple{}
	case "panic":
		panic(goPanic{args[0].(Iface)})
	case "recover":
		fr := s.th().frames
		if len(fr) >= 2 {
			c, g := fr[len(fr)-1], fr[len(fr)-2]
			if c.kind == 1 && g.panicking != nil && !g.panicking.recovered {
				r := *g.panicking
				r.recovered = true
				g.panicking = &r
				return r.v
			}
		}
		return Iface{}
	case "print", "println":
		return Tuple{}
	case "min", "max":
		r := args[0]
		for i := 1; i < len(args); i++ {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			t := cc.Args[0].Type()
			c := x.binop(s, op, args[i], r, t, t).(*Term)
			switch a := r.(type) {
			case *Term:
				r = Ite(c, args[i].(*Term), a)
			default:
				if x.decide(s, c) {
					r = args[i]
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			x.throw(s, "value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := x.concInt(s, idx64(args[1].(*Term), cc.Args[1].Type()))
		if n == 0 {
			return emptyStr
		}
		p := args[0].(Ptr)
		return mkStr(x.sliceBytes(s, Slice{p.obj, p.off, n, n}))
	case "StringData":
		str := args[0].(*Str)
		if str.Len() == 0 {
			return Ptr{}
		}
		sl := x.newBytes(s, str.Bytes())
		return Ptr{sl.obj, 0}
	case "SliceData":
		sl := args[0].(Slice)
		return Ptr{sl.obj, sl.off}
	case "Slice":
		p := args[0].(Ptr)
		n := x.concInt(s, idx64(args[1].(*Term), cc.Args[1].Type()))
		if p.obj == 0 {
			return Slice{}
		}
		return Slice{p.obj, p.off, n, n}
	}
	panic(unsupported{"builtin " + b.Name()})
}

// capacity growth as in the gc runtime (sizes rounded up to malloc classes approximately)
func growCap(old, need int, el types.Type) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < 1 {
		nc = 1
	}
	sz := int(gcSizes.Sizeof(el))
	if sz == 0 {
		return need
	}
	total := nc * sz
	classes := []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192}
	for _, c := range classes {
		if total <= c {
			return c / sz
		}
	}
	return (total + 8191) / 8192 * 8192 / sz
}

var gcSizes = types.SizesFor("gc", "amd64")
