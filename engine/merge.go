package main

import (
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Opportunistic merging of states that stopped at the same program point.

func (x *X) merge(l []*State) []*State {
	var out []*State
	window := 256
	if len(l) > 256 {
		window = 32
	}
	slow := len(l) > 64
next:
	for n, s := range l {
		if slow && n&63 == 0 && time.Now().After(x.deadline) {
			return append(out, l[n:]...)
		}
		from := 0
		if len(out) > window {
			from = len(out) - window
		}
		for i := from; i < len(out); i++ {
			if m := x.tryMerge(out[i], s); m != nil {
				out[i] = m
				x.nMerges++
				continue next
			}
		}
		out = append(out, s)
	}
	return out
}

func (x *X) tryMerge(a, b *State) *State {
	if a.cur != b.cur || len(a.threads) != 1 || len(b.threads) != 1 || a.depth() != b.depth() || a.par != b.par {
		return nil
	}
	if len(a.obs) != len(b.obs) || len(a.trace) != len(b.trace) || len(a.ndCount) != len(b.ndCount) || len(a.nd) != len(b.nd) {
		return nil
	}
	for i := range a.trace {
		if a.trace[i] != b.trace[i] {
			return nil
		}
	}
	for k, v := range a.ndCount {
		if b.ndCount[k] != v {
			return nil
		}
	}
	if len(a.native) != len(b.native) {
		return nil
	}
	for k, v := range a.native {
		if !sameVal(v, b.native[k]) {
			return nil
		}
	}
	fa, fb := a.th().frames, b.th().frames
	for i := range fa {
		p, q := fa[i], fb[i]
		if p.fn != q.fn || p.block != q.block || p.idx != q.idx || p.kind != q.kind || p.key != q.key ||
			len(p.defers) != len(q.defers) || p.panicking != nil || q.panicking != nil || len(p.memo) != len(q.memo) {
			return nil
		}
		for k := range p.defers {
			if p.defers[k] != q.defers[k] {
				return nil
			}
		}
		for k, v := range p.memo {
			if !sameVal(v, q.memo[k]) {
				return nil
			}
		}
	}
	// discriminator
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	ca, cb := AndAll(a.pc[k:]), AndAll(b.pc[k:])
	c := ca
	if k < len(a.pc) && k < len(b.pc) && Not(a.pc[k]) == b.pc[k] {
		c = a.pc[k]
	}
	if c.isConst() && !cb.isConst() {
		c = Not(cb)
	}
	m := &merger{x: x, c: c}

	// registers
	type regSet struct {
		f *Frame
		i int
		v Value
	}
	var regs []regSet
	for i := range fa {
		p, q := fa[i], fb[i]
		var live map[ssa.Value]bool
		for r := range p.regs {
			if sameVal(p.regs[r], q.regs[r]) {
				continue
			}
			if i < len(fa)-1 {
				return nil
			}
			if live == nil {
				live = p.info.liveAt(p.block, p.idx)
			}
			v := p.info.val(r)
			if !live[v] {
				regs = append(regs, regSet{p, r, nil})
				continue
			}
			if p.regs[r] == nil || q.regs[r] == nil {
				return nil
			}
			mv, ok := m.val(p.regs[r], q.regs[r], v.Type())
			if !ok {
				return nil
			}
			regs = append(regs, regSet{p, r, mv})
		}
	}
	// observations
	obs := make([]Observation, len(a.obs))
	for i := range a.obs {
		if a.obs[i].label != b.obs[i].label {
			return nil
		}
		v, ok := m.val(a.obs[i].v, b.obs[i].v, a.obs[i].typ)
		if !ok {
			return nil
		}
		obs[i] = Observation{a.obs[i].label, v, a.obs[i].typ}
	}
	// heap
	type objSet struct {
		id    int32
		cells []Value
	}
	var objs []objSet
	var add []int32
	for id, ob := range b.heap {
		oa, ok := a.heap[id]
		if !ok {
			if x.base[id] != nil {
				oa = x.base[id]
			} else {
				add = append(add, id)
				continue
			}
		}
		if oa == ob {
			continue
		}
		cells, same, ok := m.obj(oa, ob)
		if !ok {
			return nil
		}
		if !same {
			objs = append(objs, objSet{id, cells})
		}
	}
	for id, oa := range a.heap {
		if _, ok := b.heap[id]; ok {
			continue
		}
		if ob := x.base[id]; ob != nil {
			cells, same, ok := m.obj(oa, ob)
			if !ok {
				return nil
			}
			if !same {
				objs = append(objs, objSet{id, cells})
			}
		}
	}
	// commit into a
	for _, r := range regs {
		r.f.regs[r.i] = r.v
	}
	a.obs = obs
	for _, id := range add {
		a.heap[id] = b.heap[id]
	}
	a.tok = new(int)
	for _, o := range objs {
		w := x.wObj(a, o.id)
		w.cells = o.cells
	}
	pre := a.pc[:k:k]
	a.pc = pre
	or := Or(ca, cb)
	a.known = map[int32]uint64{}
	for _, t := range pre {
		a.learn(t)
	}
	a.addPC(or)
	seen := map[string]bool{}
	for _, r := range a.reached {
		seen[r] = true
	}
	for _, r := range b.reached {
		if !seen[r] {
			a.reached = append(a.reached, r)
		}
	}
	if b.steps > a.steps {
		a.steps = b.steps
	}
	a.ev = nil
	return a
}

type merger struct {
	x *X
	c *Term
}

func mergeableInt(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	b, ok := n.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (m *merger) val(a, b Value, t types.Type) (Value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok || p.w != q.w {
			return nil, false
		}
		if p.w == 64 && !mergeableInt(t) {
			return nil, false
		}
		return Ite(m.c, p, q), true
	case *Str:
		q, ok := b.(*Str)
		if !ok || p.Len() != q.Len() {
			return nil, false
		}
		r := make([]*Term, p.Len())
		for i := range r {
			r[i] = Ite(m.c, p.At(i), q.At(i))
		}
		return mkStr(r), true
	case Agg:
		q, ok := b.(Agg)
		if !ok || len(p) != len(q) {
			return nil, false
		}
		r := make(Agg, len(p))
		for i := range p {
			v, ok := m.val(p[i], q[i], cellType(t, i))
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Tuple:
		q, ok := b.(Tuple)
		if !ok || len(p) != len(q) {
			return nil, false
		}
		r := make(Tuple, len(p))
		for i := range p {
			var et types.Type
			if tt, ok := t.(*types.Tuple); ok && i < tt.Len() {
				et = tt.At(i).Type()
			}
			v, ok := m.val(p[i], q[i], et)
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Iface:
		q, ok := b.(Iface)
		if !ok || p.t == nil || q.t == nil || canon(p.t) != canon(q.t) {
			return nil, false
		}
		v, ok := m.val(p.v, q.v, p.t)
		if !ok {
			return nil, false
		}
		return Iface{p.t, v}, true
	}
	return nil, false
}

func cellType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for k := 0; k < u.NumFields(); k++ {
			n := ncells(u.Field(k).Type())
			if i < n {
				return cellType(u.Field(k).Type(), i)
			}
			i -= n
		}
	case *types.Array:
		if n := ncells(u.Elem()); n > 0 {
			return cellType(u.Elem(), i%n)
		}
	}
	return t
}

func (m *merger) obj(a, b *Obj) ([]Value, bool, bool) {
	if a.it != nil || b.it != nil {
		if a.it != nil && b.it != nil && a.it.pos == b.it.pos && a.it.spos == b.it.spos {
			return a.cells, true, true
		}
		return nil, false, false
	}
	if a.ch != b.ch {
		return nil, false, false
	}
	if len(a.cells) != len(b.cells) {
		return nil, false, false
	}
	if a.m != nil || b.m != nil {
		if a.m == nil || b.m == nil || len(a.m.ents) != len(b.m.ents) {
			return nil, false, false
		}
		for i := range a.m.ents {
			if !sameVal(a.m.ents[i].k, b.m.ents[i].k) || !sameVal(a.m.ents[i].v, b.m.ents[i].v) {
				return nil, false, false
			}
		}
		return a.cells, true, true
	}
	var r []Value
	n := ncells(a.elem)
	for i := range a.cells {
		if sameVal(a.cells[i], b.cells[i]) {
			continue
		}
		et := a.elem
		if n > 0 {
			et = cellType(a.elem, i%n)
		}
		v, ok := m.val(a.cells[i], b.cells[i], et)
		if !ok {
			return nil, false, false
		}
		if r == nil {
			r = append([]Value(nil), a.cells...)
		}
		r[i] = v
	}
	if r == nil {
		return a.cells, true, true
	}
	return r, false, true
}

// values that may still be read when execution continues at (b, idx)
func (fi *fnInfo) liveAt(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	fi.liveIn(b)
	l := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		pi := -1
		for i, p := range s.Preds {
			if p == b {
				pi = i
			}
		}
		for v := range fi.live[s] {
			l[v] = true
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			l[ph.Edges[pi]] = true
		}
	}
	var ops []*ssa.Value
	for i := idx; i < len(b.Instrs); i++ {
		ops = b.Instrs[i].Operands(ops[:0])
		for _, o := range ops {
			if *o != nil {
				l[*o] = true
			}
		}
		// the result of the call being returned to is set by the callee
		if i == idx {
			continue
		}
	}
	// the value just delivered at idx-1 is used later if at all; covered by operands
	// parameters and free variables are covered by operands as well
	if fi.fn.Recover != nil {
		for v := range fi.live[fi.fn.Recover] {
			l[v] = true
		}
		for _, in := range fi.fn.Recover.Instrs {
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o != nil {
					l[*o] = true
				}
			}
		}
	}
	return l
}

func (fi *fnInfo) val(r int) ssa.Value {
	if fi.rev == nil {
		fi.rev = make([]ssa.Value, fi.n)
		for v, i := range fi.idx {
			fi.rev[i] = v
		}
	}
	return fi.rev[r]
}
