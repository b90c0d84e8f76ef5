package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (x *X) spawn(s *State, c *Closure, args []Value) {
	if c.fn == nil || len(c.fn.Blocks) == 0 {
		panic(unsupported{"go statement on a non-Go function"})
	}
	t := &Thread{}
	cur := s.cur
	s.threads = append(s.threads[:len(s.threads):len(s.threads)], t)
	s.cur = len(s.threads) - 1
	x.pushCall(s, c, args, 0, "")
	s.cur = cur
}

func (s *State) runnable() []int {
	var r []int
	for i, t := range s.threads {
		if !t.done && !t.block && !(i == 0 && s.par != nil) {
			r = append(r, i)
		}
	}
	return r
}

// the current thread cannot continue: pick another one
func (x *X) reschedule(s *State) (stepResult, []*State) {
	if !s.th().done {
		s.th().block = true
	}
	r := s.runnable()
	if len(r) == 0 {
		all := true
		for i, t := range s.threads {
			if i > 0 && !t.done {
				all = false
			}
		}
		if all && s.par != nil && !s.threads[0].done {
			s.threads[0].block = false
			s.cur = 0
			s.arrived = true
			return rArrived, nil
		}
		x.violation(s, "deadlock: all goroutines are blocked", s.model)
		return rDead, nil
	}
	var kids []*State
	for i, t := range r {
		k := s
		if i < len(r)-1 {
			k = x.fork(s)
		}
		k.cur = t
		k.skipPre = true
		for n := len(k.threads); k.par == nil && n > t+1 && k.threads[n-1].done; n-- {
			k.threads = k.threads[: n-1 : n-1]
		}
		if len(r) > 1 {
			k.trace = append(k.trace, fmt.Sprintf("sched: switch to %d", t))
		}
		kids = append(kids, k)
	}
	return rFork, kids
}

// wake everything blocked; each retries its operation
func (s *State) wake() {
	for _, t := range s.threads {
		t.block = false
	}
}

func (x *X) preemptFork(s *State) []*State {
	if s.skipPre || s.preempt >= s.maxPre || s.cur == 0 && s.par != nil {
		return nil
	}
	r := s.runnable()
	if len(r) < 2 {
		return nil
	}
	var kids []*State
	for _, t := range r {
		if t == s.cur || t == 0 && s.par != nil {
			continue
		}
		k := x.fork(s)
		k.preempt++
		pos := x.pos(s)
		k.cur = t
		k.skipPre = true
		k.trace = append(k.trace, fmt.Sprintf("sched: preempt %d at %s, run %d", s.cur, pos, t))
		kids = append(kids, k)
	}
	if len(kids) == 0 {
		return nil
	}
	s.skipPre = true
	return append(kids, s)
}

type cellKey struct {
	site ssa.Instruction
	obj  int32
	off  int
}

func (x *X) memKey(s *State, obj int32, off int) (interface{}, bool) {
	o, ok := s.heap[obj]
	if !ok {
		return cellKey{nil, obj, off}, true
	}
	if o.owner == s.cur {
		return nil, false
	}
	if s.par != nil && obj > s.par.minObj {
		return cellKey{x.sites[obj], 0, 0}, true
	}
	return cellKey{nil, obj, off}, true
}

// does the instruction touch memory shared with another thread (that some thread writes)?
func (x *X) isVisible(s *State, f *Frame, in ssa.Instruction) bool {
	if s.par == nil {
		return false
	}
	vis := false
	touch := func(p Value, n int, write bool) {
		var obj int32
		off := 0
		switch p := p.(type) {
		case Ptr:
			obj, off = p.obj, p.off
		case SymPtr:
			obj, off = p.obj, p.base
			n = p.n * p.stride
		case Slice:
			obj, off = p.obj, p.off
		case MapRef:
			obj = p.obj
			n = 1
		case ChanRef:
			obj = p.obj
			n = 1
		default:
			return
		}
		if obj == 0 {
			return
		}
		for i := 0; i < n; i++ {
			k, shared := x.memKey(s, obj, off+i)
			if !shared {
				return
			}
			if write && !s.par.written[k] {
				s.par.written[k] = true
				*s.par.grew = true
			}
			if s.par.written[k] {
				vis = true
			}
		}
	}
	operand := func(v ssa.Value) Value {
		if i, ok := f.info.idx[v]; ok {
			return f.regs[i]
		}
		switch v.(type) {
		case *ssa.Global:
			return x.get(s, f, v)
		}
		return nil
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op.String() == "*" {
			touch(operand(in.X), ncells(in.Type()), false)
		}
		if in.Op == token.ARROW {
			touch(operand(in.X), 1, true)
		}
	case *ssa.Send:
		touch(operand(in.Chan), 1, true)
	case *ssa.Select:
		for _, st := range in.States {
			touch(operand(st.Chan), 1, true)
		}
	case *ssa.Store:
		touch(operand(in.Addr), ncells(in.Val.Type()), true)
	case *ssa.MapUpdate:
		touch(operand(in.Map), 1, true)
	case *ssa.Lookup:
		touch(operand(in.X), 1, false)
	case *ssa.Range:
		touch(operand(in.X), 1, false)
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				d, _ := operand(in.Call.Args[0]).(Slice)
				if sl, ok := operand(in.Call.Args[1]).(Slice); ok {
					n := ncells(in.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
					touch(Slice{d.obj, d.off, d.len, d.cap}, d.len*n, false)
					touch(sl, sl.len*n, false)
					if sl.len > 0 && d.len+sl.len <= d.cap {
						touch(Slice{d.obj, d.off + d.len*n, sl.len, sl.len}, sl.len*n, true)
					}
				}
			case "copy":
				d, _ := operand(in.Call.Args[0]).(Slice)
				n := ncells(in.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
				if sl, ok := operand(in.Call.Args[1]).(Slice); ok {
					touch(sl, sl.len*n, false)
					touch(d, min(d.len, sl.len)*n, true)
				}
			case "delete", "close":
				touch(operand(in.Call.Args[0]), 1, true)
			case "len", "cap":
			}
			return vis
		}
		if in.Call.IsInvoke() {
			return false
		}
		if fn, ok := in.Call.Value.(*ssa.Function); ok && isSyncFn(fn) {
			p := operand(in.Call.Args[0])
			touch(p, 1, isSyncWrite(fn))
		}
	}
	return vis
}

func (x *X) syncPoint(s *State, fn *ssa.Function) {}

func (x *X) pathDone(s *State) {
	if s == x.initState {
		return
	}
	x.nPaths++
	for _, r := range s.reached {
		x.reach[r]++
	}
	x.sample(s)
}

// verif.Parallel(fs ...func())
func intrParallel(x *X, s *State, args []Value) Value {
	f := s.frame()
	if _, ok := f.memo["par"]; !ok {
		if len(s.threads) > 1 {
			panic(unsupported{"nested Parallel"})
		}
		sl := args[0].(Slice)
		fns := x.sliceElems(s, sl, types.NewSignatureType(nil, nil, nil, nil, nil, false))
		if f.memo == nil {
			f.memo = map[string]Value{}
		}
		f.memo["par"] = tTrue
		// fixpoint over the set of shared cells that are written by some thread
		written := map[interface{}]bool{}
		for {
			grew := false
			c := x.fork(s)
			c.par = &parCtx{written: written, grew: &grew, minObj: x.nextObj}
			c.maxPre = x.opts.Preempt
			c.preempt = 0
			for _, fn := range fns {
				x.spawn(c, fn.(*Closure), nil)
			}
			c.threads[0].block = true
			c.cur = 1
			c.skipPre = true
			save := x.snapshot()
			r := c.runnable()
			var outs []*State
			var starts []*State
			for i, t := range r {
				k := c
				if i < len(r)-1 {
					k = x.fork(c)
				}
				k.cur = t
				starts = append(starts, k)
			}
			for _, k := range starts {
				outs = append(outs, x.run(k, stopSpec{depth: 0, block: nil, none: false, par: true}, 0)...)
			}
			if grew && x.curLimit == "" {
				x.restore(save)
				continue
			}
			if len(outs) == 0 {
				panic(deadPath{"no schedule completed"})
			}
			for _, o := range outs {
				o.threads = o.threads[:1:1]
				o.cur = 0
				o.threads[0].block = false
				o.par = nil
				o.skipPre = false
				if len(o.trace) == 0 || !hasPrefix(o.trace, "sched") {
					o.trace = append(o.trace, "sched: in order")
				}
				fr := o.frame()
				fr.memo["par"] = tFalse
				o.arrived = false
			}
			panic(forkStates{outs})
		}
	}
	return Tuple{}
}

type snap struct {
	nviol int
	keys  map[string]bool
}

func (x *X) snapshot() snap {
	k := map[string]bool{}
	for a, b := range x.violKeys {
		k[a] = b
	}
	return snap{len(x.viols), k}
}

func (x *X) restore(s snap) {
	x.viols = x.viols[:s.nviol]
	x.violKeys = s.keys
}

func isSyncFn(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil {
		if fn.Origin() != nil {
			p = fn.Origin().Pkg
		}
	}
	if p == nil {
		return false
	}
	switch p.Pkg.Path() {
	case "sync", "sync/atomic", "internal/sync", "internal/runtime/atomic":
		return len(fn.Params) > 0
	}
	return false
}

func isSyncWrite(fn *ssa.Function) bool {
	switch n := fn.Name(); {
	case len(n) >= 4 && n[:4] == "Load":
		return false
	case n == "Do", n == "doSlow":
		return false
	}
	return true
}
