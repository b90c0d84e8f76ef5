package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// control-flow panics inside one instruction
type unsupported struct{ msg string }
type forkReq struct{ c *Term }
type needCall struct {
	key  string
	fn   *Closure
	args []Value
}
type deadPath struct{ why string }
type goPanic struct{ v Iface }
type blocked struct{}
type reExec struct{}

type fnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	ipdom []*ssa.BasicBlock // per block index, nil = function exit
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	rev   []ssa.Value
}

type deferRec struct {
	fn   *Closure
	blt  *ssa.Builtin
	args []Value
	typ  *ssa.CallCommon
}

type panicRec struct {
	v         Iface
	recovered bool
	where     string
}

type Frame struct {
	info      *fnInfo
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	idx       int
	regs      []Value
	defers    []*deferRec
	kind      uint8 // 0 call, 1 deferred, 2 callback
	key       string
	memo      map[string]Value
	panicking *panicRec
}

type Thread struct {
	frames []*Frame
	done   bool
	block  bool
}

type Observation struct {
	label string
	v     Value
	typ   types.Type
}

type State struct {
	id       int
	tok      *int
	heap     map[int32]*Obj
	threads  []*Thread
	cur      int
	pc       []*Term
	known    map[int32]uint64 // term id -> constant (Bool facts and concretizations)
	knownTok *int
	model    Model
	ev       *evaluator
	nd       []NDRec
	ndCount  map[string]int
	obs      []Observation
	reached  []string
	steps    int
	preempt  int
	maxPre   int
	skipPre  bool
	arrived  bool
	par      *parCtx
	native   map[string]Value // engine-side per-state variables (verif options)
	trace    []string
}

type NDRec struct {
	Name string
	Kind string
	T    *Term
	Sgn  bool
	Vals []string
}

type parCtx struct {
	written  map[interface{}]bool
	grew     *bool
	minObj   int32
	mainDone bool
}

func (st *State) th() *Thread   { return st.threads[st.cur] }
func (st *State) frame() *Frame { f := st.th().frames; return f[len(f)-1] }
func (st *State) depth() int    { return len(st.th().frames) }

func (x *X) fork(st *State) *State {
	x.nStates++
	n := *st
	n.id = x.nStates
	st.tok = new(int)
	n.tok = new(int)
	n.heap = make(map[int32]*Obj, len(st.heap)+8)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.threads = make([]*Thread, len(st.threads))
	for i, t := range st.threads {
		nt := *t
		nt.frames = make([]*Frame, len(t.frames))
		for j, f := range t.frames {
			nf := *f
			nf.regs = append([]Value(nil), f.regs...)
			if f.memo != nil {
				nf.memo = make(map[string]Value, len(f.memo))
				for k, v := range f.memo {
					nf.memo[k] = v
				}
			}
			nt.frames[j] = &nf
		}
		n.threads[i] = &nt
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = n.pc
	n.nd = st.nd[:len(st.nd):len(st.nd)]
	st.nd = n.nd
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	st.obs = n.obs
	n.reached = st.reached[:len(st.reached):len(st.reached)]
	st.reached = n.reached
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	st.trace = n.trace
	n.known = make(map[int32]uint64, len(st.known)+4)
	for k, v := range st.known {
		n.known[k] = v
	}
	n.ndCount = make(map[string]int, len(st.ndCount))
	for k, v := range st.ndCount {
		n.ndCount[k] = v
	}
	n.native = make(map[string]Value, len(st.native))
	for k, v := range st.native {
		n.native[k] = v
	}
	n.ev = nil
	return &n
}

// ---- heap

func (x *X) getObj(st *State, id int32) *Obj {
	if id == 0 {
		panic("nil object")
	}
	if o, ok := st.heap[id]; ok {
		return o
	}
	if o, ok := x.base[id]; ok {
		return o
	}
	panic(fmt.Sprintf("no object %d", id))
}

func (x *X) wObj(st *State, id int32) *Obj {
	if x.initing > 0 && st == x.initState {
		if o, ok := x.base[id]; ok {
			return o
		}
	}
	o, ok := st.heap[id]
	if ok && o.tok == st.tok {
		return o
	}
	if !ok {
		o = x.base[id]
	}
	n := &Obj{tok: st.tok, elem: o.elem, owner: o.owner, it: o.it, ch: o.ch}
	if o.cells != nil {
		n.cells = append(make([]Value, 0, len(o.cells)), o.cells...)
	}
	if o.m != nil {
		m := &MapData{ents: append([]MapEntry(nil), o.m.ents...)}
		if o.m.idx != nil {
			m.idx = make(map[string]int, len(o.m.idx))
			for k, v := range o.m.idx {
				m.idx[k] = v
			}
		}
		n.m = m
	}
	if o.it != nil {
		it := *o.it
		n.it = &it
	}
	st.heap[id] = n
	return n
}

func (x *X) newObj(st *State, o *Obj) int32 {
	x.nextObj++
	id := x.nextObj
	o.owner = st.cur
	if x.initing > 0 && st == x.initState {
		o.owner = -1
		x.base[id] = o
		return id
	}
	o.tok = st.tok
	st.heap[id] = o
	return id
}

func (x *X) alloc(st *State, elem types.Type, count int) int32 {
	n := ncells(elem)
	cells := make([]Value, n*count)
	if count > 0 && n > 0 {
		zeroCells(elem, cells[:n])
		if n == 1 {
			z := cells[0]
			for i := 1; i < count; i++ {
				cells[i] = z
			}
		} else {
			for i := 1; i < count; i++ {
				copy(cells[i*n:(i+1)*n], cells[:n])
			}
		}
	}
	return x.newObj(st, &Obj{elem: elem, cells: cells})
}

func (x *X) load(st *State, p Value, t types.Type) Value {
	switch p := p.(type) {
	case Ptr:
		if p.obj == 0 {
			x.nilDeref(st)
		}
		o := x.getObj(st, p.obj)
		n := ncells(t)
		if p.off+n > len(o.cells) {
			// reinterpretation such as *(*string)(unsafe.Pointer(&bytes))
			panic(unsupported{"load outside of object layout"})
		}
		if isAgg(t) {
			r := make(Agg, n)
			copy(r, o.cells[p.off:p.off+n])
			return r
		}
		v := o.cells[p.off]
		if isString(t) {
			if s, ok := v.(Slice); ok {
				return mkStr(x.sliceBytes(st, s))
			}
		}
		return v
	case SymPtr:
		o := x.getObj(st, p.obj)
		n := ncells(t)
		if n == 1 && !isAgg(t) {
			lo, hi := x.idxRange(p.idx, p.n)
			var r *Term
			ok := true
			for i := hi; i >= lo; i-- {
				c, isT := o.cells[p.base+i*p.stride+p.sub].(*Term)
				if !isT {
					ok = false
					break
				}
				if r == nil {
					r = c
				} else {
					r = Ite(Eq(p.idx, Const(p.idx.w, uint64(i))), c, r)
				}
			}
			if ok && r != nil {
				return r
			}
		}
		i := x.concretize(st, p.idx)
		return x.load(st, Ptr{p.obj, p.base + int(i)*p.stride + p.sub}, t)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (x *X) idxRange(t *Term, n int) (int, int) {
	lo, hi := 0, n-1
	if t.lo > uint64(lo) && t.lo <= uint64(hi) {
		lo = int(t.lo)
	}
	if t.hi < uint64(hi) {
		hi = int(t.hi)
	}
	return lo, hi
}

func (x *X) store(st *State, p Value, t types.Type, v Value) {
	switch p := p.(type) {
	case Ptr:
		if p.obj == 0 {
			x.nilDeref(st)
		}
		if isAgg(t) {
			a := v.(Agg)
			if len(a) == 0 {
				return
			}
			o := x.wObj(st, p.obj)
			copy(o.cells[p.off:p.off+len(a)], a)
			x.publish(st, o, a...)
			return
		}
		o := x.wObj(st, p.obj)
		o.cells[p.off] = v
		x.publish(st, o, v)
		return
	case SymPtr:
		o := x.getObj(st, p.obj)
		nv, isT := v.(*Term)
		if isT && !isAgg(t) && p.n <= 64 {
			ok := true
			lo, hi := x.idxRange(p.idx, p.n)
			for i := lo; i <= hi; i++ {
				if _, k := o.cells[p.base+i*p.stride+p.sub].(*Term); !k {
					ok = false
				}
			}
			if ok {
				w := x.wObj(st, p.obj)
				for i := lo; i <= hi; i++ {
					k := p.base + i*p.stride + p.sub
					w.cells[k] = Ite(Eq(p.idx, Const(p.idx.w, uint64(i))), nv, w.cells[k].(*Term))
				}
				return
			}
		}
		i := x.concretize(st, p.idx)
		x.store(st, Ptr{p.obj, p.base + int(i)*p.stride + p.sub}, t, v)
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p)})
}

func (x *X) sliceBytes(st *State, s Slice) []*Term {
	if s.len == 0 {
		return nil
	}
	o := x.getObj(st, s.obj)
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = o.cells[s.off+i].(*Term)
	}
	return r
}

func (x *X) newBytes(st *State, b []*Term) Slice {
	cells := make([]Value, len(b))
	for i, t := range b {
		cells[i] = t
	}
	id := x.newObj(st, &Obj{elem: types.Typ[types.Uint8], cells: cells})
	return Slice{id, 0, len(b), len(b)}
}

func (x *X) newSlice(st *State, elem types.Type, vals []Value) Slice {
	n := ncells(elem)
	cells := make([]Value, 0, n*len(vals))
	for _, v := range vals {
		cells = append(cells, toCells(elem, v)...)
	}
	id := x.newObj(st, &Obj{elem: elem, cells: cells})
	return Slice{id, 0, len(vals), len(vals)}
}

func (x *X) sliceElems(st *State, s Slice, elem types.Type) []Value {
	r := make([]Value, s.len)
	if s.len == 0 {
		return r
	}
	o := x.getObj(st, s.obj)
	n := ncells(elem)
	for i := range r {
		r[i] = fromCells(elem, o.cells[s.off+i*n:s.off+(i+1)*n])
	}
	return r
}

// ---- decisions

func (st *State) eval(t *Term) uint64 {
	if st.ev == nil {
		st.ev = newEval(st.model)
	}
	return st.ev.eval(t)
}

func (st *State) setModel(m Model) {
	st.model = m
	st.ev = nil
}

func (st *State) addPC(c *Term) {
	if c == tTrue {
		return
	}
	if c.op == OpAnd {
		st.addPC(c.a)
		st.addPC(c.b)
		return
	}
	if _, ok := st.known[c.id]; ok && st.known[c.id] == 1 {
		return
	}
	st.pc = append(st.pc, c)
	st.learn(c)
}

func (st *State) learn(c *Term) {
	st.known[c.id] = 1
	n := Not(c)
	st.known[n.id] = 0
	if c.op == OpEq && c.a.w != 0 {
		if c.b.isConst() {
			st.known[c.a.id] = c.b.val
		} else if c.a.isConst() {
			st.known[c.b.id] = c.a.val
		}
	}
	if c.op == OpNot && c.a.op == OpOr {
		st.learn(Not(c.a.a))
		st.learn(Not(c.a.b))
	}
}

func (st *State) simp(c *Term) *Term {
	if c.isConst() {
		return c
	}
	if v, ok := st.known[c.id]; ok {
		return Const(c.w, v)
	}
	if c.w == 0 {
		switch c.op {
		case OpNot:
			return Not(st.simp(c.a))
		case OpAnd:
			a := st.simp(c.a)
			if a == tFalse {
				return a
			}
			return And(a, st.simp(c.b))
		case OpOr:
			a := st.simp(c.a)
			if a == tTrue {
				return a
			}
			return Or(a, st.simp(c.b))
		case OpEq:
			if v, ok := st.known[c.a.id]; ok && c.a.w != 0 {
				return Eq(Const(c.a.w, v), c.b)
			}
			if v, ok := st.known[c.b.id]; ok && c.b.w != 0 {
				return Eq(c.a, Const(c.b.w, v))
			}
		case OpUlt, OpUle, OpSlt, OpSle:
			a, b := c.a, c.b
			if v, ok := st.known[a.id]; ok {
				a = Const(a.w, v)
			}
			if v, ok := st.known[b.id]; ok {
				b = Const(b.w, v)
			}
			if a != c.a || b != c.b {
				switch c.op {
				case OpUlt:
					return Ult(a, b)
				case OpUle:
					return Ule(a, b)
				case OpSlt:
					return Slt(a, b)
				}
				return Sle(a, b)
			}
		}
	}
	return c
}

// truth set of a condition over one byte-sized variable
type truthSet struct {
	v    *Term
	bits [4]uint64
}

var truthCache = map[int32]*truthSet{}

func truthOf(c *Term) *truthSet {
	if t, ok := truthCache[c.id]; ok {
		return t
	}
	vs := termVars(c)
	if len(vs) != 1 || vs[0].w > 8 || vs[0].w == 0 {
		truthCache[c.id] = nil
		return nil
	}
	ts := &truthSet{v: vs[0]}
	for i := 0; i < 1<<vs[0].w; i++ {
		if newEval(Model{vs[0].name: uint64(i)}).eval(c) == 1 {
			ts.bits[i>>6] |= 1 << (i & 63)
		}
	}
	truthCache[c.id] = ts
	return ts
}

// domain of a byte variable implied by unary constraints in pc
func (st *State) quick(c *Term) (canT, canF bool) {
	ts := truthOf(c)
	if ts == nil {
		return true, true
	}
	dom := [4]uint64{}
	for i := 0; i < 1<<ts.v.w; i++ {
		dom[i>>6] |= 1 << (i & 63)
	}
	for _, p := range st.pc {
		vs := termVars(p)
		if len(vs) == 1 && vs[0] == ts.v {
			t := truthOf(p)
			for k := range dom {
				dom[k] &= t.bits[k]
			}
		}
	}
	for k := range dom {
		if dom[k]&ts.bits[k] != 0 {
			canT = true
		}
		if dom[k]&^ts.bits[k] != 0 {
			canF = true
		}
	}
	return canT, canF
}

// feasibility of both sides; models returned for the feasible ones
func (x *X) sides(st *State, c *Term) (bool, bool, Model, Model) {
	x.nDecisions++
	var mt, mf Model
	ft, ff := st.quick(c)
	if !ft && !ff {
		panic(deadPath{"empty domain"})
	}
	if !ff {
		return true, false, st.model, nil
	}
	if !ft {
		return false, true, nil, st.model
	}
	if st.eval(c) == 1 {
		mt = st.model
		r, m := x.solver.Check(st.pc, Not(c), st.model)
		switch r {
		case Sat:
			mf = m
		case Unsat:
			ff = false
		case Unknown:
			x.noteUnknown(st, "branch")
			ff = false
			x.incompleteAt("solver gave no answer on a branch")
		}
	} else {
		mf = st.model
		r, m := x.solver.Check(st.pc, c, st.model)
		switch r {
		case Sat:
			mt = m
		case Unsat:
			ft = false
		case Unknown:
			x.noteUnknown(st, "branch")
			ft = false
			x.incompleteAt("solver gave no answer on a branch")
		}
	}
	return ft, ff, mt, mf
}

// decide a condition inside an instruction; forks (by re-execution) if both sides are possible
func (x *X) decide(st *State, c *Term) bool {
	c = st.simp(c)
	if c.isConst() {
		return c.val == 1
	}
	ft, ff, _, _ := x.sides(st, c)
	if ft && ff {
		panic(forkReq{c})
	}
	if ft {
		st.known[c.id] = 1
		st.known[Not(c).id] = 0
		return true
	}
	st.known[c.id] = 0
	st.known[Not(c).id] = 1
	return false
}

func (x *X) concretize(st *State, t *Term) uint64 {
	for {
		t = st.simp(t)
		if t.isConst() {
			return t.val
		}
		v := st.eval(t)
		if x.decide(st, Eq(t, Const(t.w, v))) {
			st.known[t.id] = v
			return v
		}
		// decided not equal although the model says so cannot happen
		panic(fmt.Sprintf("concretize: %v", t))
	}
}

func (x *X) concInt(st *State, v Value) int {
	t := v.(*Term)
	return int(sext64(x.concretize(st, t), t.w))
}

func (x *X) concStr(st *State, s *Str) string {
	if s.b == nil {
		return s.s
	}
	r := make([]byte, len(s.b))
	for i, t := range s.b {
		r[i] = byte(x.concretize(st, t))
	}
	return string(r)
}

func (x *X) nilDeref(st *State) {
	x.throw(st, "invalid memory address or nil pointer dereference")
}

func (x *X) throw(st *State, msg string) {
	panic(goPanic{x.runtimeError(msg)})
}

func (x *X) runtimeError(msg string) Iface {
	if p := x.prog.ImportedPackage("runtime"); p != nil {
		if t := p.Type("errorString"); t != nil {
			return Iface{t.Type(), cstr(msg)}
		}
	}
	return Iface{types.Typ[types.String], cstr("runtime error: " + msg)}
}

// ---- sharing between threads

func (x *X) publish(st *State, into *Obj, vs ...Value) {
	if len(st.threads) < 2 || into.owner == st.cur {
		return
	}
	for _, v := range vs {
		x.publishVal(st, v)
	}
}

func (x *X) publishObj(st *State, id int32) {
	if id == 0 {
		return
	}
	o, ok := st.heap[id]
	if !ok || o.owner == -1 {
		return
	}
	if st.par != nil && id <= st.par.minObj {
		return
	}
	o = x.wObj(st, id)
	o.owner = -1
	for _, v := range o.cells {
		x.publishVal(st, v)
	}
	if o.m != nil {
		for _, e := range o.m.ents {
			x.publishVal(st, e.k)
			x.publishVal(st, e.v)
		}
	}
	if o.ch != nil {
		for _, v := range o.ch.queue {
			x.publishVal(st, v)
		}
	}
}

func (x *X) publishVal(st *State, v Value) {
	switch v := v.(type) {
	case Ptr:
		x.publishObj(st, v.obj)
	case Slice:
		x.publishObj(st, v.obj)
	case MapRef:
		x.publishObj(st, v.obj)
	case ChanRef:
		x.publishObj(st, v.obj)
	case Iface:
		x.publishVal(st, v.v)
	case Agg:
		for _, e := range v {
			x.publishVal(st, e)
		}
	case *Closure:
		if v != nil {
			for _, e := range v.binds {
				x.publishVal(st, e)
			}
		}
	}
}

// ---- global context

type Violation struct {
	Msg      string            `json:"msg"`
	Pos      string            `json:"pos"`
	Stack    []string          `json:"stack"`
	Inputs   map[string]string `json:"inputs"`
	Order    []string          `json:"order"`
	Schedule bool              `json:"schedule"`
	MapOrder bool              `json:"maporder"`
	Trace    []string          `json:"trace,omitempty"`
}

type X struct {
	prog      *ssa.Program
	fset      *token.FileSet
	solver    *Solver
	modPath   string
	base      map[int32]*Obj
	globals   map[*ssa.Global]int32
	inited    map[*ssa.Package]int
	initing   int
	initState *State
	nextObj   int32
	infos     map[*ssa.Function]*fnInfo

	nStates    int
	nPaths     int
	nSteps     int
	nExpired   int
	nDecisions int
	nMerges    int
	nAsserts   int // solver-decided assertion instances
	nTrivial   int // assertion instances decided by simplification
	deadline   time.Time
	reach      map[string]int
	assertMsgs map[string]int
	viols      []*Violation
	violKeys   map[string]bool
	hung       bool
	incomplete map[string]int
	unknowns   int
	funcs      map[*ssa.Function]int
	inputSeen  map[string]*inputRange
	samples    []*Sample
	nSamples   int
	maxSamples int
	opts       Options
	mapOrders  bool
	initFails  map[string]string
	curLimit   string
	forkSites  map[string]int
	methCache  map[methKey]*ssa.Function
	sites      map[int32]ssa.Instruction
	intrCache  map[*ssa.Function]intrinsicFn
	reConst    map[string]*reModel
	poison     map[int32]string
	tier       int
	lastUnsup  string
}

type Sample struct {
	Inputs map[string]string   `json:"inputs"`
	Order  []string            `json:"order"`
	Obs    []map[string]string `json:"obs"`
	Reach  []string            `json:"reach"`
	Fuzzy  bool                `json:"schedule_dependent"`
}

type Options struct {
	MergeOff  bool
	MaxSteps  int
	MaxPaths  int
	MapOrders int
	Preempt   int
	Verbose   bool
}

func (x *X) noteUnknown(st *State, what string) { x.unknowns++ }
func (x *X) incompleteAt(why string) {
	x.incomplete[why]++
}

func (x *X) pos(st *State) string {
	fr := st.th().frames
	for i := len(fr) - 1; i >= 0; i-- {
		f := fr[i]
		if f.idx < len(f.block.Instrs) {
			for k := f.idx; k >= 0; k-- {
				if p := f.block.Instrs[k].Pos(); p.IsValid() {
					return x.fset.Position(p).String()
				}
			}
		}
		if f.fn.Pos().IsValid() {
			return x.fset.Position(f.fn.Pos()).String()
		}
	}
	return "?"
}

func (x *X) stack(st *State) []string {
	var r []string
	fr := st.th().frames
	for i := len(fr) - 1; i >= 0; i-- {
		f := fr[i]
		p := ""
		for k := min(f.idx, len(f.block.Instrs)-1); k >= 0; k-- {
			if q := f.block.Instrs[k].Pos(); q.IsValid() {
				p = x.fset.Position(q).String()
				break
			}
		}
		r = append(r, f.fn.String()+" "+p)
	}
	return r
}

func (x *X) inputs(st *State, m Model) (map[string]string, []string) {
	ev := newEval(m)
	r := map[string]string{}
	var ord []string
	for _, n := range st.nd {
		v := ev.eval(n.T)
		var s string
		switch {
		case n.T.w == 0:
			s = fmt.Sprint(v == 1)
		case n.Sgn:
			s = fmt.Sprint(sext64(v, n.T.w))
		default:
			s = fmt.Sprint(v)
		}
		r[n.Name] = s
		ord = append(ord, n.Name)
	}
	return r, ord
}

func (x *X) violation(st *State, msg string, m Model) {
	key := msg + "@" + x.pos(st)
	if x.violKeys[key] {
		return
	}
	x.violKeys[key] = true
	in, ord := x.inputs(st, m)
	v := &Violation{Msg: msg, Pos: x.pos(st), Stack: x.stack(st), Inputs: in, Order: ord,
		Schedule: st.par != nil || len(st.trace) > 0 && hasPrefix(st.trace, "sched"),
		MapOrder: hasPrefix(st.trace, "maporder"), Trace: st.trace}
	x.viols = append(x.viols, v)
}

func hasPrefix(l []string, p string) bool {
	for _, s := range l {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
