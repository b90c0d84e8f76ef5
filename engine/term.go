package main

// Hash-consed SMT terms (QF_BV, widths 1..64; width 0 = Bool) with simplification
// and unsigned/signed interval tracking.

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpZext
	OpSext
	OpExtract // low bits: Extract(w-1,0) after shifting right by val
	OpConcat
)

type Term struct {
	id       int32
	op       Op
	w        uint8 // 0: Bool
	a, b, c  *Term
	val      uint64
	name     string
	lo, hi   uint64 // unsigned range
	slo, shi int64  // signed range
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
	name    string
}

var termTab = map[termKey]*Term{}
var termCount int32

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func smin(w uint8) int64 { return -(int64(1) << (w - 1)) }
func smax(w uint8) int64 { return int64(uint64(1)<<(w-1) - 1) }

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mk(op Op, w uint8, a, b, c *Term, val uint64, name string) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), val, name}
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: termCount, op: op, w: w, a: a, b: b, c: c, val: val, name: name}
	termCount++
	setRange(t)
	termTab[k] = t
	return t
}

func setFull(t *Term) {
	t.lo, t.hi = 0, mask(t.w)
	t.slo, t.shi = smin(t.w), smax(t.w)
}

// derive the signed range from the unsigned one and vice versa
func crossRange(t *Term) {
	if t.w == 0 {
		return
	}
	sm := uint64(smax(t.w))
	if t.hi <= sm {
		if t.slo < int64(t.lo) {
			t.slo = int64(t.lo)
		}
		if t.shi > int64(t.hi) {
			t.shi = int64(t.hi)
		}
	} else if t.lo > sm {
		l, h := sext64(t.lo, t.w), sext64(t.hi, t.w)
		if t.slo < l {
			t.slo = l
		}
		if t.shi > h {
			t.shi = h
		}
	}
	if t.slo >= 0 {
		if t.lo < uint64(t.slo) {
			t.lo = uint64(t.slo)
		}
		if t.hi > uint64(t.shi) {
			t.hi = uint64(t.shi)
		}
	} else if t.shi < 0 {
		l, h := uint64(t.slo)&mask(t.w), uint64(t.shi)&mask(t.w)
		if t.lo < l {
			t.lo = l
		}
		if t.hi > h {
			t.hi = h
		}
	}
}

func setRange(t *Term) {
	if t.w == 0 {
		t.lo, t.hi = 0, 1
		return
	}
	setFull(t)
	a, b := t.a, t.b
	switch t.op {
	case OpConst:
		t.lo, t.hi = t.val, t.val
		t.slo = sext64(t.val, t.w)
		t.shi = t.slo
	case OpIte:
		b, c := t.b, t.c
		t.lo, t.hi = min(b.lo, c.lo), max(b.hi, c.hi)
		t.slo, t.shi = min(b.slo, c.slo), max(b.shi, c.shi)
	case OpZext:
		t.lo, t.hi = a.lo, a.hi
	case OpSext:
		t.slo, t.shi = a.slo, a.shi
	case OpExtract:
		if t.val == 0 && a.hi <= mask(t.w) {
			t.lo, t.hi = a.lo, a.hi
		}
		if t.val == 0 && a.slo >= smin(t.w) && a.shi <= smax(t.w) {
			t.slo, t.shi = a.slo, a.shi
		}
	case OpAdd:
		if s, c := bits.Add64(a.hi, b.hi, 0); c == 0 && s <= mask(t.w) {
			t.lo, t.hi = a.lo+b.lo, s
		}
		if l, ok := addS(a.slo, b.slo); ok {
			if h, ok2 := addS(a.shi, b.shi); ok2 && l >= smin(t.w) && h <= smax(t.w) {
				t.slo, t.shi = l, h
			}
		}
	case OpSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
		if l, ok := subS(a.slo, b.shi); ok {
			if h, ok2 := subS(a.shi, b.slo); ok2 && l >= smin(t.w) && h <= smax(t.w) {
				t.slo, t.shi = l, h
			}
		}
	case OpMul:
		if hi, lo := bits.Mul64(a.hi, b.hi); hi == 0 && lo <= mask(t.w) {
			t.lo, t.hi = a.lo*b.lo, lo
		}
		if a.slo > -(1<<30) && a.shi < 1<<30 && b.slo > -(1<<30) && b.shi < 1<<30 {
			p := []int64{a.slo * b.slo, a.slo * b.shi, a.shi * b.slo, a.shi * b.shi}
			l, h := p[0], p[0]
			for _, x := range p {
				l, h = min(l, x), max(h, x)
			}
			if l >= smin(t.w) && h <= smax(t.w) {
				t.slo, t.shi = l, h
			}
		}
	case OpUDiv:
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OpURem:
		if b.lo > 0 {
			t.hi = min(a.hi, b.hi-1)
		}
	case OpBAnd:
		t.hi = min(a.hi, b.hi)
	case OpBOr:
		h := max(bits.Len64(a.hi), bits.Len64(b.hi))
		t.hi = mask(uint8(h))
		if h == 0 {
			t.hi = 0
		}
		t.lo = max(a.lo, b.lo)
	case OpBXor:
		h := max(bits.Len64(a.hi), bits.Len64(b.hi))
		t.hi = 0
		if h > 0 {
			t.hi = mask(uint8(h))
		}
	case OpLShr:
		if b.op == OpConst && b.val < 64 {
			t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
		} else {
			t.hi = a.hi
		}
	case OpShl:
		if b.op == OpConst && b.val < 64 && a.hi <= mask(t.w)>>b.val {
			t.lo, t.hi = a.lo<<b.val, a.hi<<b.val
		}
	case OpConcat:
		t.lo = a.lo<<b.w | b.lo
		t.hi = a.hi<<b.w | b.hi
		if a.lo != a.hi {
			t.lo = a.lo << b.w
			t.hi = a.hi<<b.w | mask(b.w)
		}
	}
	crossRange(t)
	if t.op != OpConst && t.lo == t.hi && t.op != OpVar {
		// caller folds through foldRange
	}
}

func addS(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) == (b > 0) || b == 0 {
		return c, true
	}
	return 0, false
}
func subS(a, b int64) (int64, bool) {
	c := a - b
	if (c < a) == (b > 0) || b == 0 {
		return c, true
	}
	return 0, false
}

var tTrue, tFalse *Term

func init() {
	tTrue = mk(OpConst, 0, nil, nil, nil, 1, "")
	tFalse = mk(OpConst, 0, nil, nil, nil, 0, "")
}

func Const(w uint8, v uint64) *Term {
	if w == 0 {
		return BoolT(v != 0)
	}
	return mk(OpConst, w, nil, nil, nil, v&mask(w), "")
}
func BoolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// Variable of a given width; w=0 Bool.
func Var(name string, w uint8) *Term { return mk(OpVar, w, nil, nil, nil, 0, name) }

func (t *Term) isConst() bool { return t.op == OpConst }

func fold(t *Term) *Term {
	if t.w != 0 && t.op != OpConst && t.op != OpVar && t.lo == t.hi {
		return Const(t.w, t.lo)
	}
	return t
}

func Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return BoolT(a.val == 0)
	case OpNot:
		return a.a
	case OpUlt:
		return Ule(a.b, a.a)
	case OpUle:
		return Ult(a.b, a.a)
	case OpSlt:
		return Sle(a.b, a.a)
	case OpSle:
		return Slt(a.b, a.a)
	}
	return mk(OpNot, 0, a, nil, nil, 0, "")
}

func And(a, b *Term) *Term {
	if a == b || b == tTrue {
		return a
	}
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tFalse || Not(a) == b {
		return tFalse
	}
	if a.op == OpAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OpAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OpOr && (a.a == b || a.b == b) {
		return b
	}
	if b.op == OpOr && (b.a == a || b.b == a) {
		return a
	}
	na, nb := Not(a), Not(b)
	if b.op == OpAnd && (b.a == na || b.b == na) {
		return tFalse
	}
	if a.op == OpAnd && (a.a == nb || a.b == nb) {
		return tFalse
	}
	// a & (!a | x) = a & x
	if b.op == OpOr {
		if b.a == na {
			return And(a, b.b)
		}
		if b.b == na {
			return And(a, b.a)
		}
	}
	if a.op == OpOr {
		if a.a == nb {
			return And(b, a.b)
		}
		if a.b == nb {
			return And(b, a.a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OpAnd, 0, a, b, nil, 0, "")
}

func Or(a, b *Term) *Term {
	if a == b || b == tFalse {
		return a
	}
	if a == tFalse {
		return b
	}
	if a == tTrue || b == tTrue {
		return tTrue
	}
	na, nb := Not(a), Not(b)
	if na == b {
		return tTrue
	}
	if a.op == OpOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OpOr && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OpAnd && (a.a == b || a.b == b) {
		return b
	}
	if b.op == OpAnd && (b.a == a || b.b == a) {
		return a
	}
	if b.op == OpOr && (b.a == na || b.b == na) {
		return tTrue
	}
	if a.op == OpOr && (a.a == nb || a.b == nb) {
		return tTrue
	}
	// a | (!a & x) = a | x
	if b.op == OpAnd {
		if b.a == na {
			return Or(a, b.b)
		}
		if b.b == na {
			return Or(a, b.a)
		}
	}
	if a.op == OpAnd {
		if a.a == nb {
			return Or(b, a.b)
		}
		if a.b == nb {
			return Or(b, a.a)
		}
	}
	// (x & y) | (x & !y) = x
	if a.op == OpAnd && b.op == OpAnd {
		for _, p := range [][2]*Term{{a.a, a.b}, {a.b, a.a}} {
			for _, q := range [][2]*Term{{b.a, b.b}, {b.b, b.a}} {
				if p[0] == q[0] && p[1] == Not(q[1]) {
					return p[0]
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OpOr, 0, a, b, nil, 0, "")
}

func AndAll(ts []*Term) *Term {
	r := tTrue
	for _, t := range ts {
		r = And(r, t)
	}
	return r
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, x, y *Term) *Term {
	if x == y {
		return x
	}
	if c == tTrue {
		return x
	}
	if c == tFalse {
		return y
	}
	if c.op == OpNot {
		return Ite(c.a, y, x)
	}
	if x.w == 0 {
		if x == tTrue {
			return Or(c, y)
		}
		if x == tFalse {
			return And(Not(c), y)
		}
		if y == tTrue {
			return Or(Not(c), x)
		}
		if y == tFalse {
			return And(c, x)
		}
		if x == Not(y) {
			return Eq(c, x)
		}
	}
	if x.op == OpIte && x.a == c {
		x = x.b
	}
	if y.op == OpIte && y.a == c {
		y = y.c
	}
	if x == y {
		return x
	}
	if y.op == OpIte && y.b == x {
		return Ite(Or(c, y.a), x, y.c)
	}
	if x.op == OpIte && x.c == y {
		return Ite(And(c, x.a), x.b, y)
	}
	return mk(OpIte, x.w, c, x, y, 0, "")
}

func iteConstLeaf(t *Term) bool {
	return t.op == OpIte && (t.b.op == OpConst || t.c.op == OpConst)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return BoolT(a.val == b.val)
	}
	if a.w == 0 {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
		if a == Not(b) {
			return tFalse
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo || a.shi < b.slo || b.shi < a.slo {
			return tFalse
		}
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if iteConstLeaf(a) {
				return Ite(a.a, Eq(a.b, b), Eq(a.c, b))
			}
			if a.op == OpZext {
				return Eq(a.a, Const(a.a.w, b.val))
			}
			if a.op == OpSext {
				if sext64(b.val, b.w) < smin(a.a.w) || sext64(b.val, b.w) > smax(a.a.w) {
					return tFalse
				}
				return Eq(a.a, Const(a.a.w, b.val))
			}
			if a.op == OpAdd && a.b.op == OpConst {
				return Eq(a.a, Const(a.w, b.val-a.b.val))
			}
			if a.op == OpExtract && a.val == 0 && a.a.hi <= mask(a.w) {
				return Eq(a.a, Const(a.a.w, b.val))
			}
		} else if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return Eq(a.a, b.a)
		} else if a.op == OpAdd && b.op == OpAdd && a.b == b.b {
			return Eq(a.a, b.a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OpEq, 0, a, b, nil, 0, "")
}

func cmpFoldIte(f func(a, b *Term) *Term, a, b *Term) *Term {
	if b.op == OpConst && iteConstLeaf(a) {
		return Ite(a.a, f(a.b, b), f(a.c, b))
	}
	if a.op == OpConst && iteConstLeaf(b) {
		return Ite(b.a, f(a, b.b), f(a, b.c))
	}
	return nil
}

func Ult(a, b *Term) *Term {
	if a == b || a.lo >= b.hi {
		return tFalse
	}
	if a.hi < b.lo {
		return tTrue
	}
	if r := cmpFoldIte(Ult, a, b); r != nil {
		return r
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return Ult(a.a, b.a)
	}
	if a.op == OpZext && b.op == OpConst && b.val <= mask(a.a.w) {
		return Ult(a.a, Const(a.a.w, b.val))
	}
	if b.op == OpZext && a.op == OpConst && a.val <= mask(b.a.w) {
		return Ult(Const(b.a.w, a.val), b.a)
	}
	if b.op == OpConst && b.val == 1 {
		return Eq(a, Const(a.w, 0))
	}
	return mk(OpUlt, 0, a, b, nil, 0, "")
}
func Ule(a, b *Term) *Term {
	if a == b || a.hi <= b.lo {
		return tTrue
	}
	if a.lo > b.hi {
		return tFalse
	}
	if r := cmpFoldIte(Ule, a, b); r != nil {
		return r
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return Ule(a.a, b.a)
	}
	if a.op == OpZext && b.op == OpConst && b.val <= mask(a.a.w) {
		return Ule(a.a, Const(a.a.w, b.val))
	}
	if b.op == OpZext && a.op == OpConst && a.val <= mask(b.a.w) {
		return Ule(Const(b.a.w, a.val), b.a)
	}
	if b.op == OpConst && b.val == 0 {
		return Eq(a, b)
	}
	return mk(OpUle, 0, a, b, nil, 0, "")
}
func Slt(a, b *Term) *Term {
	if a == b || a.slo >= b.shi {
		return tFalse
	}
	if a.shi < b.slo {
		return tTrue
	}
	if a.slo >= 0 && b.slo >= 0 {
		return Ult(a, b)
	}
	if r := cmpFoldIte(Slt, a, b); r != nil {
		return r
	}
	return mk(OpSlt, 0, a, b, nil, 0, "")
}
func Sle(a, b *Term) *Term {
	if a == b || a.shi <= b.slo {
		return tTrue
	}
	if a.slo > b.shi {
		return tFalse
	}
	if a.slo >= 0 && b.slo >= 0 {
		return Ule(a, b)
	}
	if r := cmpFoldIte(Sle, a, b); r != nil {
		return r
	}
	return mk(OpSle, 0, a, b, nil, 0, "")
}

func Add(a, b *Term) *Term {
	if a.op == OpConst {
		a, b = b, a
	}
	if a.op == OpConst {
		return Const(a.w, a.val+b.val)
	}
	if b.op == OpConst {
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.b.op == OpConst {
			return Add(a.a, Const(a.w, a.b.val+b.val))
		}
		if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
			return Ite(a.a, Add(a.b, b), Add(a.c, b))
		}
	}
	return fold(mk(OpAdd, a.w, a, b, nil, 0, ""))
}
func Sub(a, b *Term) *Term {
	if a == b {
		return Const(a.w, 0)
	}
	if b.op == OpConst {
		return Add(a, Const(a.w, -b.val))
	}
	if a.op == OpAdd && a.a == b {
		return a.b
	}
	if a.op == OpAdd && a.b == b {
		return a.a
	}
	return fold(mk(OpSub, a.w, a, b, nil, 0, ""))
}
func Neg(a *Term) *Term { return Sub(Const(a.w, 0), a) }

// evaluate binary op on constants
func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	sx, sy := sext64(x, w), sext64(y, w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		if y == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		if y == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m
	case OpEq:
		if x == y {
			return 1
		}
	case OpUlt:
		if x < y {
			return 1
		}
	case OpUle:
		if x <= y {
			return 1
		}
	case OpSlt:
		if sx < sy {
			return 1
		}
	case OpSle:
		if sx <= sy {
			return 1
		}
	default:
		panic("evalBin")
	}
	return 0
}

func bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op %d: %d %d", op, a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return Const(a.w, evalBin(op, a.w, a.val, b.val))
	}
	// distribute over ite with two constant leaves
	if b.op == OpConst && a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
		return Ite(a.a, Const(a.w, evalBin(op, a.w, a.b.val, b.val)), Const(a.w, evalBin(op, a.w, a.c.val, b.val)))
	}
	return fold(mk(op, a.w, a, b, nil, 0, ""))
}

func narrow(t *Term, k uint8) *Term { return Extract(t, 0, k) }

func Mul(a, b *Term) *Term {
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst && a.op != OpConst {
		switch {
		case b.val == 0:
			return b
		case b.val == 1:
			return a
		case b.val&(b.val-1) == 0:
			return Shl(a, Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	if a.op == OpConst {
		return bin(OpMul, a, b)
	}
	if a.op == OpIte && a.b.op == OpConst && a.c.op == OpConst {
		return Ite(a.a, Mul(a.b, b), Mul(a.c, b))
	}
	if b.op == OpIte && b.b.op == OpConst && b.c.op == OpConst {
		return Ite(b.a, Mul(a, b.b), Mul(a, b.c))
	}
	if hi, lo := bits.Mul64(a.hi, b.hi); hi == 0 {
		k := uint8(bits.Len64(lo))
		if k == 0 {
			k = 1
		}
		if k < a.w {
			return Zext(mk(OpMul, k, narrow(a, k), narrow(b, k), nil, 0, ""), a.w)
		}
	}
	return bin(OpMul, a, b)
}

func UDiv(a, b *Term) *Term {
	if b.op == OpConst && b.val == 1 {
		return a
	}
	k := uint8(max(bits.Len64(a.hi), bits.Len64(b.hi)))
	if k == 0 {
		k = 1
	}
	if k < a.w && b.lo > 0 && a.op != OpConst {
		return Zext(fold(mk(OpUDiv, k, narrow(a, k), narrow(b, k), nil, 0, "")), a.w)
	}
	return bin(OpUDiv, a, b)
}
func URem(a, b *Term) *Term {
	k := uint8(max(bits.Len64(a.hi), bits.Len64(b.hi)))
	if k == 0 {
		k = 1
	}
	if b.op == OpConst && b.val != 0 && b.val&(b.val-1) == 0 {
		return BAnd(a, Const(a.w, b.val-1))
	}
	if b.lo > 0 && a.hi < b.lo {
		return a
	}
	if k < a.w && b.lo > 0 && a.op != OpConst {
		return Zext(fold(mk(OpURem, k, narrow(a, k), narrow(b, k), nil, 0, "")), a.w)
	}
	return bin(OpURem, a, b)
}
func SDiv(a, b *Term) *Term {
	if a.slo >= 0 && b.slo >= 0 {
		return UDiv(a, b)
	}
	return bin(OpSDiv, a, b)
}
func SRem(a, b *Term) *Term {
	if a.slo >= 0 && b.slo >= 0 {
		return URem(a, b)
	}
	return bin(OpSRem, a, b)
}
func BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.val == 0 {
			return b
		}
		if b.val == mask(b.w) {
			return a
		}
		// low mask covering the range
		if b.val&(b.val+1) == 0 && a.hi <= b.val {
			return a
		}
	}
	return bin(OpBAnd, a, b)
}
func BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst && b.val == 0 {
		return a
	}
	return bin(OpBOr, a, b)
}
func BXor(a, b *Term) *Term {
	if a == b {
		return Const(a.w, 0)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst && b.val == 0 {
		return a
	}
	return bin(OpBXor, a, b)
}
func BNot(a *Term) *Term {
	if a.op == OpConst {
		return Const(a.w, ^a.val)
	}
	return mk(OpBNot, a.w, a, nil, nil, 0, "")
}
func Shl(a, b *Term) *Term {
	if b.op == OpConst {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return Const(a.w, 0)
		}
	}
	return bin(OpShl, a, b)
}
func LShr(a, b *Term) *Term {
	if b.op == OpConst {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return Const(a.w, 0)
		}
		// shift of a shifted/or'd value of which only whole parts remain
		if r := shrParts(a, b.val); r != nil {
			return r
		}
	}
	return bin(OpLShr, a, b)
}

// (x | y<<k)>>k with x < 2^k
func shrParts(a *Term, k uint64) *Term {
	if a.op == OpShl && a.b.op == OpConst && a.a.hi <= mask(a.w)>>a.b.val {
		if a.b.val == k {
			return a.a
		}
		if a.b.val > k {
			return Shl(a.a, Const(a.w, a.b.val-k))
		}
		return LShr(a.a, Const(a.w, k-a.b.val))
	}
	if a.op == OpBOr {
		l, r := shrSafe(a.a, k), shrSafe(a.b, k)
		if l != nil && r != nil {
			return BOr(l, r)
		}
	}
	return nil
}
func shrSafe(a *Term, k uint64) *Term {
	if k < 64 && a.hi < uint64(1)<<k {
		return Const(a.w, 0)
	}
	return shrParts(a, k)
}

func AShr(a, b *Term) *Term {
	if a.slo >= 0 {
		return LShr(a, b)
	}
	if b.op == OpConst && b.val == 0 {
		return a
	}
	return bin(OpAShr, a, b)
}

func Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext")
	}
	if a.op == OpConst {
		return Const(w, a.val)
	}
	if a.op == OpZext {
		return Zext(a.a, w)
	}
	if a.op == OpIte && a.b.op == OpConst && (a.c.op == OpConst || iteConstLeaf(a.c)) {
		return Ite(a.a, Zext(a.b, w), Zext(a.c, w))
	}
	return mk(OpZext, w, a, nil, nil, 0, "")
}
func Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return Const(w, uint64(sext64(a.val, a.w)))
	}
	if a.slo >= 0 {
		return Zext(a, w)
	}
	return mk(OpSext, w, a, nil, nil, 0, "")
}

// Extract w bits starting at bit lo.
func Extract(a *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.op == OpConst {
		return Const(w, a.val>>lo)
	}
	if a.op == OpZext {
		if lo == 0 {
			if w <= a.a.w {
				return Extract(a.a, 0, w)
			}
			return Zext(a.a, w)
		}
		if lo >= uint64(a.a.w) {
			return Const(w, 0)
		}
	}
	if a.op == OpSext && lo == 0 {
		if w <= a.a.w {
			return Extract(a.a, 0, w)
		}
		return Sext(a.a, w)
	}
	if a.op == OpIte && a.b.op == OpConst && (a.c.op == OpConst || iteConstLeaf(a.c)) {
		return Ite(a.a, Extract(a.b, lo, w), Extract(a.c, lo, w))
	}
	if lo == 0 && (a.op == OpBAnd || a.op == OpBOr || a.op == OpBXor) {
		return bin2(a.op, Extract(a.a, 0, w), Extract(a.b, 0, w))
	}
	if lo == 0 && a.op == OpShl && a.b.op == OpConst {
		return Shl(Extract(a.a, 0, w), Const(w, a.b.val&mask(w)|boolBig(a.b.val > mask(w), mask(w))))
	}
	if lo == 0 && a.op == OpExtract {
		return Extract(a.a, a.val, w)
	}
	if lo == 0 && a.op == OpLShr && a.b.op == OpConst && a.b.val+uint64(w) <= uint64(a.w) {
		return Extract(a.a, a.b.val, w)
	}
	if lo > 0 && a.op == OpBOr {
		return BOr(Extract(a.a, lo, w), Extract(a.b, lo, w))
	}
	if lo > 0 && a.op == OpShl && a.b.op == OpConst {
		if a.b.val <= lo {
			// bits lo.. of x<<k are bits lo-k.. of x
			if lo-a.b.val+uint64(w) <= uint64(a.w) {
				return Extract(a.a, lo-a.b.val, w)
			}
		} else if a.b.val >= lo+uint64(w) {
			return Const(w, 0)
		}
	}
	return fold(mk(OpExtract, w, a, nil, nil, lo, ""))
}

func boolBig(c bool, v uint64) uint64 {
	if c {
		return v
	}
	return 0
}

func bin2(op Op, a, b *Term) *Term {
	switch op {
	case OpBAnd:
		return BAnd(a, b)
	case OpBOr:
		return BOr(a, b)
	case OpBXor:
		return BXor(a, b)
	}
	panic("bin2")
}

// ---- evaluation under a model

type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[int32]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m, map[int32]uint64{}} }

func (e *evaluator) eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OpVar:
		r = e.m[t.name]
		if t.w != 0 {
			r &= mask(t.w)
		}
	case OpNot:
		r = 1 - e.eval(t.a)
	case OpAnd:
		if e.eval(t.a) == 1 {
			r = e.eval(t.b)
		}
	case OpOr:
		if e.eval(t.a) == 1 {
			r = 1
		} else {
			r = e.eval(t.b)
		}
	case OpIte:
		if e.eval(t.a) == 1 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OpBNot:
		r = ^e.eval(t.a) & mask(t.w)
	case OpZext:
		r = e.eval(t.a)
	case OpSext:
		r = uint64(sext64(e.eval(t.a), t.a.w)) & mask(t.w)
	case OpExtract:
		r = (e.eval(t.a) >> t.val) & mask(t.w)
	case OpConcat:
		r = e.eval(t.a)<<t.b.w | e.eval(t.b)
	default:
		w := t.w
		if w == 0 {
			w = t.a.w
		}
		x, y := e.eval(t.a), e.eval(t.b)
		if t.op == OpEq {
			if x == y {
				r = 1
			}
		} else {
			r = evalBin(t.op, w, x, y)
		}
	}
	e.memo[t.id] = r
	return r
}
