package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strconv"
	"unicode"
)

// Model of package regexp: the real parser and compiler produce the program,
// the backtracking semantics of that program is evaluated on strings with
// symbolic bytes.

type reModel struct {
	expr    *Str // as given
	prog    *syntax.Prog
	ncap    int
	names   []string
	real    *regexp.Regexp // nil when the pattern has symbolic bytes
	ph      map[rune]*Term // placeholder rune -> symbolic byte
	phLo    rune
	phHi    rune
	cache   map[*Str]*reMemo
	longest bool
}

type reMemo struct {
	ok map[int64]*Term
}

const phBase = 0xF0000

func (x *X) reCompile(s *State, pat *Str) (*reModel, error) {
	if pat.b == nil {
		key := "re:" + pat.s
		if m, ok := x.reConst[key]; ok {
			return m, nil
		}
		re, err := regexp.Compile(pat.s)
		if err != nil {
			return nil, err
		}
		ast, err := syntax.Parse(pat.s, syntax.Perl)
		if err != nil {
			return nil, err
		}
		names := ast.CapNames()
		n := ast.MaxCap()
		prog, err := syntax.Compile(ast.Simplify())
		if err != nil {
			return nil, err
		}
		m := &reModel{expr: pat, prog: prog, ncap: n + 1, names: names, real: re, cache: map[*Str]*reMemo{}}
		x.reConst[key] = m
		return m, nil
	}
	// literal bytes that are symbolic become placeholder runes
	m := &reModel{expr: pat, ph: map[rune]*Term{}, phLo: phBase, phHi: phBase - 1, cache: map[*Str]*reMemo{}}
	var txt []rune
	prevEsc := false
	inClass := false
	for i := 0; i < pat.Len(); i++ {
		t := s.simp(pat.At(i))
		if t.isConst() {
			c := byte(t.val)
			if c >= 0x80 {
				r, n := x.decodeRune(s, pat, i)
				txt = append(txt, rune(r.val))
				i += n - 1
				prevEsc = false
				continue
			}
			txt = append(txt, rune(c))
			if prevEsc {
				prevEsc = false
			} else if c == '\\' {
				prevEsc = true
			} else if c == '[' {
				inClass = true
			} else if c == ']' {
				inClass = false
			}
			continue
		}
		literal := false
		if !inClass {
			if prevEsc {
				// \c with punctuation c stands for c
				p := tFalse
				for c := byte(0x21); c < 0x7f; c++ {
					if c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' {
						continue
					}
					p = Or(p, Eq(t, byteConst[c]))
				}
				if x.decide(s, p) {
					literal = true
					txt = txt[:len(txt)-1]
				}
			} else {
				p := Ult(t, byteConst[0x80])
				for _, c := range `\.+*?()|[]{}^$` {
					p = And(p, Not(Eq(t, byteConst[c])))
				}
				literal = x.decide(s, p)
			}
		}
		prevEsc = false
		if !literal {
			x.concretize(s, t)
			// start again with the known byte
			b := append([]*Term(nil), pat.Bytes()...)
			for k := range b {
				b[k] = s.simp(b[k])
			}
			return x.reCompile(s, mkStr(b))
		}
		m.phHi++
		m.ph[m.phHi] = t
		txt = append(txt, m.phHi)
	}
	ast, err := syntax.Parse(string(txt), syntax.Perl)
	if err != nil {
		return nil, err
	}
	m.names = ast.CapNames()
	m.ncap = ast.MaxCap() + 1
	m.prog, err = syntax.Compile(ast.Simplify())
	if err != nil {
		return nil, err
	}
	return m, nil
}

func (m *reModel) runeCond(in *syntax.Inst, r *Term) *Term {
	one := func(c rune) *Term {
		if c >= m.phLo && c <= m.phHi {
			return Eq(r, Zext(m.ph[c], 32))
		}
		return Eq(r, Const(32, uint64(uint32(c))))
	}
	switch in.Op {
	case syntax.InstRuneAny:
		return tTrue
	case syntax.InstRuneAnyNotNL:
		return Not(Eq(r, Const(32, '\n')))
	}
	rs := in.Rune
	if len(rs) == 1 {
		c := one(rs[0])
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for f := unicode.SimpleFold(rs[0]); f != rs[0]; f = unicode.SimpleFold(f) {
				c = Or(c, one(f))
			}
		}
		return c
	}
	// complement of a small set reads better (and solves faster) negated
	c := tFalse
	for i := 0; i+1 < len(rs); i += 2 {
		lo, hi := rs[i], rs[i+1]
		if lo == hi {
			c = Or(c, one(lo))
			continue
		}
		if m.ph != nil && lo <= m.phHi && hi >= m.phLo && hi-lo < 4096 {
			for k := lo; k <= hi; k++ {
				c = Or(c, one(k))
			}
			continue
		}
		c = Or(c, And(Ule(Const(32, uint64(uint32(lo))), r), Ule(r, Const(32, uint64(uint32(hi))))))
	}
	return c
}

type reRun struct {
	x    *X
	s    *State
	m    *reModel
	in   *Str
	memo *reMemo
	act  map[int64]bool
	tnt  bool
}

func isWord(t *Term) *Term {
	in := func(a, b byte) *Term { return And(Ule(byteConst[a], t), Ule(t, byteConst[b])) }
	return Or(Or(in('a', 'z'), in('A', 'Z')), Or(in('0', '9'), Eq(t, byteConst['_'])))
}

func (r *reRun) empty(op syntax.EmptyOp, pos int) *Term {
	c := tTrue
	n := r.in.Len()
	nl := func(i int) *Term { return Eq(r.in.At(i), byteConst['\n']) }
	if op&syntax.EmptyBeginText != 0 && pos != 0 || op&syntax.EmptyEndText != 0 && pos != n {
		return tFalse
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 {
		c = And(c, nl(pos-1))
	}
	if op&syntax.EmptyEndLine != 0 && pos != n {
		c = And(c, nl(pos))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		a, b := tFalse, tFalse
		if pos > 0 {
			a = isWord(r.in.At(pos - 1))
		}
		if pos < n {
			b = isWord(r.in.At(pos))
		}
		eq := Or(And(a, b), And(Not(a), Not(b)))
		if op&syntax.EmptyWordBoundary != 0 {
			c = And(c, Not(eq))
		}
		if op&syntax.EmptyNoWordBoundary != 0 {
			c = And(c, eq)
		}
	}
	return c
}

// rune at pos and its width; width 0 at the end
func (r *reRun) step(pos int) (*Term, int) {
	if pos >= r.in.Len() {
		return nil, 0
	}
	return r.x.decodeRune(r.s, r.in, pos)
}

// can a match be completed from (pc, pos)?
func (r *reRun) ok(pc uint32, pos int) *Term {
	key := int64(pc)<<32 | int64(pos)
	if t, ok := r.memo.ok[key]; ok {
		return t
	}
	if r.act[key] {
		r.tnt = true
		return tFalse
	}
	r.act[key] = true
	outer := r.tnt
	r.tnt = false
	in := &r.m.prog.Inst[pc]
	var c *Term
	switch in.Op {
	case syntax.InstFail:
		c = tFalse
	case syntax.InstMatch:
		c = tTrue
	case syntax.InstNop, syntax.InstCapture:
		c = r.ok(in.Out, pos)
	case syntax.InstAlt, syntax.InstAltMatch:
		c = Or(r.ok(in.Out, pos), r.ok(in.Arg, pos))
	case syntax.InstEmptyWidth:
		e := r.empty(syntax.EmptyOp(in.Arg), pos)
		if e == tFalse {
			c = e
		} else {
			c = And(e, r.ok(in.Out, pos))
		}
	default:
		rn, w := r.step(pos)
		if w == 0 {
			c = tFalse
			break
		}
		e := r.m.runeCond(in, rn)
		if e == tFalse {
			c = e
		} else {
			c = And(e, r.ok(in.Out, pos+w))
		}
	}
	delete(r.act, key)
	if !r.tnt || len(r.act) == 0 {
		r.memo.ok[key] = c
	}
	r.tnt = outer || r.tnt && len(r.act) > 0
	return c
}

func (m *reModel) memo(in *Str) *reMemo {
	for i := 0; i < in.Len(); i++ {
		if t := in.At(i); !t.isConst() && t.hi >= 0x80 {
			// where runes begin depends on decisions of the path
			return &reMemo{map[int64]*Term{}}
		}
	}
	memo := m.cache[in]
	if memo == nil {
		if len(m.cache) > 64 {
			m.cache = map[*Str]*reMemo{}
		}
		memo = &reMemo{map[int64]*Term{}}
		m.cache[in] = memo
	}
	return memo
}

// first match at or after pos; nil when there is none
func (x *X) reMatch(s *State, m *reModel, in *Str, pos int, ncap int) []int {
	if m.longest {
		panic(unsupported{"leftmost-longest regexp"})
	}
	if m.real != nil && in.b == nil && pos == 0 {
		return m.real.FindStringSubmatchIndex(in.s)
	}
	memo := m.memo(in)
	r := &reRun{x: x, s: s, m: m, in: in, memo: memo, act: map[int64]bool{}}
	start := uint32(m.prog.Start)
	anchored := m.prog.StartCond()&syntax.EmptyBeginText != 0
	for p := pos; p <= in.Len(); {
		if anchored && p > 0 {
			return nil
		}
		if x.decide(s, r.ok(start, p)) {
			caps := make([]int, 2*m.ncap)
			for i := range caps {
				caps[i] = -1
			}
			caps[0] = p
			r.walk(start, p, caps)
			return caps
		}
		if p == in.Len() {
			break
		}
		_, w := r.step(p)
		p += w
	}
	return nil
}

func (x *X) reTest(s *State, m *reModel, in *Str) *Term {
	if m.real != nil && in.b == nil {
		return BoolT(m.real.MatchString(in.s))
	}
	memo := m.memo(in)
	r := &reRun{x: x, s: s, m: m, in: in, memo: memo, act: map[int64]bool{}}
	c := tFalse
	anchored := m.prog.StartCond()&syntax.EmptyBeginText != 0
	for p := 0; p <= in.Len(); {
		c = Or(c, r.ok(uint32(m.prog.Start), p))
		if p == in.Len() || anchored {
			break
		}
		_, w := r.step(p)
		p += w
	}
	return c
}

// follow the preferred alternatives
func (r *reRun) walk(pc uint32, pos int, caps []int) {
	type pp struct {
		pc  uint32
		pos int
	}
	seen := map[pp]bool{}
	for {
		k := pp{pc, pos}
		in := &r.m.prog.Inst[pc]
		switch in.Op {
		case syntax.InstMatch:
			caps[1] = pos
			return
		case syntax.InstNop:
			pc = in.Out
		case syntax.InstCapture:
			if int(in.Arg) < len(caps) {
				caps[in.Arg] = pos
			}
			pc = in.Out
		case syntax.InstAlt, syntax.InstAltMatch:
			if seen[k] {
				// an empty iteration: this thread would have been dropped
				panic(unsupported{"regexp with an empty loop"})
			}
			seen[k] = true
			if r.x.decide(r.s, r.ok(in.Out, pos)) {
				pc = in.Out
			} else {
				pc = in.Arg
			}
		case syntax.InstEmptyWidth:
			pc = in.Out
		case syntax.InstFail:
			panic(unsupported{"regexp walk"})
		default:
			_, w := r.step(pos)
			pos += w
			pc = in.Out
		}
	}
}

func initRegexp() {
	I := intrinsics
	rtyp := func(x *X) types.Type { return x.lookupType("regexp", "Regexp") }
	progOff := func(x *X) int {
		st := rtyp(x).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "prog" {
				return layout(rtyp(x)).offs[i]
			}
		}
		return 1
	}
	alloc := func(x *X, s *State, m *reModel) Value {
		id := x.alloc(s, rtyp(x), 1)
		o := x.wObj(s, id)
		o.cells[0] = m.expr
		o.cells[progOff(x)] = &Native{kind: "regexp", p: m}
		return Ptr{id, 0}
	}
	model := func(x *X, s *State, v Value) *reModel {
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported{"symbolic pointer to a regexp"})
		}
		if p.obj == 0 {
			x.nilDeref(s)
		}
		n, ok := x.getObj(s, p.obj).cells[p.off+progOff(x)].(*Native)
		if !ok {
			panic(unsupported{"regexp not made by Compile"})
		}
		return n.p.(*reModel)
	}
	I["regexp.Compile"] = func(x *X, s *State, a []Value) Value {
		m, err := x.reCompile(s, str(a[0]))
		if err != nil {
			return Tuple{Ptr{}, x.newError(s, cstr(err.Error()))}
		}
		return Tuple{alloc(x, s, m), Iface{}}
	}
	I["regexp.MustCompile"] = func(x *X, s *State, a []Value) Value {
		m, err := x.reCompile(s, str(a[0]))
		if err != nil {
			panic(goPanic{Iface{types.Typ[types.String], cstr("regexp: Compile: " + err.Error())}})
		}
		return alloc(x, s, m)
	}
	I["regexp.MatchString"] = func(x *X, s *State, a []Value) Value {
		m, err := x.reCompile(s, str(a[0]))
		if err != nil {
			return Tuple{tFalse, x.newError(s, cstr(err.Error()))}
		}
		return Tuple{x.reTest(s, m, str(a[1])), Iface{}}
	}
	R := func(name string, f func(x *X, s *State, m *reModel, a []Value) Value) {
		I["(*regexp.Regexp)."+name] = func(x *X, s *State, a []Value) Value {
			return f(x, s, model(x, s, a[0]), a)
		}
	}
	// the text argument: the same *Str for the same bytes within one instruction
	text := func(x *X, s *State, v Value) *Str {
		if t, ok := v.(*Str); ok {
			return t
		}
		return mkStr(bytesArg(x, s, v))
	}
	tStr := types.Typ[types.String]
	tInt := types.Typ[types.Int]
	sub := func(in *Str, c []int, i int) Value {
		if c[2*i] < 0 {
			return emptyStr
		}
		return in.Sub(c[2*i], c[2*i+1])
	}
	ints := func(x *X, s *State, c []int) Value {
		var vs []Value
		for _, i := range c {
			vs = append(vs, Const(64, uint64(int64(i))))
		}
		return x.newSlice(s, tInt, vs)
	}
	bsub := func(v Value, c []int, i int) Value {
		if c[2*i] < 0 {
			return Slice{}
		}
		sl := v.(Slice)
		return Slice{sl.obj, sl.off + c[2*i], c[2*i+1] - c[2*i], c[2*i+1] - c[2*i]}
	}
	tBytes := types.NewSlice(types.Typ[types.Uint8])
	all := func(x *X, s *State, m *reModel, in *Str, n int) [][]int {
		var out [][]int
		pos, prevEnd := 0, -1
		if m.real != nil && in.b == nil {
			return m.real.FindAllStringSubmatchIndex(in.s, n)
		}
		if n < 0 {
			n = in.Len() + 1
		}
		for len(out) < n && pos <= in.Len() {
			c := x.reMatch(s, m, in, pos, 0)
			if c == nil {
				break
			}
			accept := true
			if c[1] == pos {
				// empty match at the search position
				if c[0] == prevEnd {
					accept = false
				}
				if pos < in.Len() {
					_, w := x.decodeRune(s, in, pos)
					pos += w
				} else {
					pos = in.Len() + 1
				}
			} else {
				pos = c[1]
			}
			prevEnd = c[1]
			if accept {
				out = append(out, c)
			}
		}
		return out
	}
	R("MatchString", func(x *X, s *State, m *reModel, a []Value) Value { return x.reTest(s, m, text(x, s, a[1])) })
	R("Match", func(x *X, s *State, m *reModel, a []Value) Value { return x.reTest(s, m, text(x, s, a[1])) })
	R("String", func(x *X, s *State, m *reModel, a []Value) Value { return m.expr })
	R("NumSubexp", func(x *X, s *State, m *reModel, a []Value) Value { return Const(64, uint64(m.ncap-1)) })
	R("SubexpNames", func(x *X, s *State, m *reModel, a []Value) Value {
		var vs []Value
		for _, n := range m.names {
			vs = append(vs, cstr(n))
		}
		return x.newSlice(s, tStr, vs)
	})
	R("SubexpIndex", func(x *X, s *State, m *reModel, a []Value) Value {
		n := x.concStr(s, str(a[1]))
		for i, k := range m.names {
			if n != "" && k == n {
				return Const(64, uint64(i))
			}
		}
		return Const(64, mask(64))
	})
	R("Longest", func(x *X, s *State, m *reModel, a []Value) Value { panic(unsupported{"regexp.Longest"}) })
	R("FindStringSubmatch", func(x *X, s *State, m *reModel, a []Value) Value {
		in := text(x, s, a[1])
		c := x.reMatch(s, m, in, 0, m.ncap)
		if c == nil {
			return Slice{}
		}
		var vs []Value
		for i := 0; i < m.ncap; i++ {
			vs = append(vs, sub(in, c, i))
		}
		return x.newSlice(s, tStr, vs)
	})
	for _, n := range []string{"FindStringSubmatchIndex", "FindSubmatchIndex"} {
		R(n, func(x *X, s *State, m *reModel, a []Value) Value {
			c := x.reMatch(s, m, text(x, s, a[1]), 0, m.ncap)
			if c == nil {
				return Slice{}
			}
			return ints(x, s, c)
		})
	}
	for _, n := range []string{"FindStringIndex", "FindIndex"} {
		R(n, func(x *X, s *State, m *reModel, a []Value) Value {
			c := x.reMatch(s, m, text(x, s, a[1]), 0, 1)
			if c == nil {
				return Slice{}
			}
			return ints(x, s, c[:2])
		})
	}
	R("FindString", func(x *X, s *State, m *reModel, a []Value) Value {
		in := text(x, s, a[1])
		c := x.reMatch(s, m, in, 0, 1)
		if c == nil {
			return emptyStr
		}
		return sub(in, c, 0)
	})
	R("Find", func(x *X, s *State, m *reModel, a []Value) Value {
		c := x.reMatch(s, m, text(x, s, a[1]), 0, 1)
		if c == nil {
			return Slice{}
		}
		return bsub(a[1], c, 0)
	})
	R("FindSubmatch", func(x *X, s *State, m *reModel, a []Value) Value {
		c := x.reMatch(s, m, text(x, s, a[1]), 0, m.ncap)
		if c == nil {
			return Slice{}
		}
		var vs []Value
		for i := 0; i < m.ncap; i++ {
			vs = append(vs, bsub(a[1], c, i))
		}
		return x.newSlice(s, tBytes, vs)
	})
	A := func(name string, el func(x *X) types.Type, f func(x *X, s *State, m *reModel, in *Str, c []int, a []Value) Value) {
		R(name, func(x *X, s *State, m *reModel, a []Value) Value {
			in := text(x, s, a[1])
			l := all(x, s, m, in, x.concInt(s, a[2]))
			if len(l) == 0 {
				return Slice{}
			}
			var vs []Value
			for _, c := range l {
				vs = append(vs, f(x, s, m, in, c, a))
			}
			return x.newSlice(s, el(x), vs)
		})
	}
	A("FindAllString", func(x *X) types.Type { return tStr }, func(x *X, s *State, m *reModel, in *Str, c []int, a []Value) Value {
		return sub(in, c, 0)
	})
	A("FindAllStringSubmatch", func(x *X) types.Type { return types.NewSlice(tStr) }, func(x *X, s *State, m *reModel, in *Str, c []int, a []Value) Value {
		var vs []Value
		for i := 0; i < m.ncap; i++ {
			vs = append(vs, sub(in, c, i))
		}
		return x.newSlice(s, tStr, vs)
	})
	for _, n := range []string{"FindAllStringSubmatchIndex", "FindAllSubmatchIndex"} {
		A(n, func(x *X) types.Type { return types.NewSlice(tInt) }, func(x *X, s *State, m *reModel, in *Str, c []int, a []Value) Value {
			return ints(x, s, c)
		})
	}
	for _, n := range []string{"FindAllStringIndex", "FindAllIndex"} {
		A(n, func(x *X) types.Type { return types.NewSlice(tInt) }, func(x *X, s *State, m *reModel, in *Str, c []int, a []Value) Value {
			return ints(x, s, c[:2])
		})
	}
	A("FindAll", func(x *X) types.Type { return tBytes }, func(x *X, s *State, m *reModel, in *Str, c []int, a []Value) Value {
		return bsub(a[1], c, 0)
	})
	A("FindAllSubmatch", func(x *X) types.Type { return types.NewSlice(tBytes) }, func(x *X, s *State, m *reModel, in *Str, c []int, a []Value) Value {
		var vs []Value
		for i := 0; i < m.ncap; i++ {
			vs = append(vs, bsub(a[1], c, i))
		}
		return x.newSlice(s, tBytes, vs)
	})
	replace := func(lit bool) func(x *X, s *State, m *reModel, a []Value) Value {
		return func(x *X, s *State, m *reModel, a []Value) Value {
			in, rep := text(x, s, a[1]), str(a[2])
			out := emptyStr
			last := 0
			for _, c := range all(x, s, m, in, -1) {
				out = concatStr(out, in.Sub(last, c[0]))
				last = c[1]
				if lit {
					out = concatStr(out, rep)
					continue
				}
				tpl := x.concStr(s, rep)
				for i := 0; i < len(tpl); i++ {
					if tpl[i] != '$' || i+1 == len(tpl) {
						out = concatStr(out, cstr(tpl[i:i+1]))
						continue
					}
					j := i + 1
					brace := tpl[j] == '{'
					if tpl[j] == '$' {
						out = concatStr(out, cstr("$"))
						i = j
						continue
					}
					if brace {
						j++
					}
					k := j
					for k < len(tpl) && (tpl[k] == '_' || tpl[k] >= '0' && tpl[k] <= '9' || tpl[k] >= 'a' && tpl[k] <= 'z' || tpl[k] >= 'A' && tpl[k] <= 'Z') {
						k++
					}
					if k == j || brace && (k == len(tpl) || tpl[k] != '}') {
						panic(unsupported{"regexp replacement template"})
					}
					name := tpl[j:k]
					if brace {
						k++
					}
					idx, err := strconv.Atoi(name)
					if err != nil {
						idx = -1
						for q, nm := range m.names {
							if nm == name {
								idx = q
							}
						}
					}
					if idx >= 0 && idx < m.ncap {
						out = concatStr(out, sub(in, c, idx).(*Str))
					}
					i = k - 1
				}
			}
			return concatStr(out, in.Sub(last, in.Len()))
		}
	}
	R("ReplaceAllString", replace(false))
	R("ReplaceAllLiteralString", replace(true))
	R("Split", func(x *X, s *State, m *reModel, a []Value) Value {
		in := text(x, s, a[1])
		n := x.concInt(s, a[2])
		if n == 0 {
			return Slice{}
		}
		if m.expr.Len() > 0 && in.Len() == 0 {
			return x.newSlice(s, tStr, []Value{emptyStr})
		}
		var vs []Value
		beg, end := 0, 0
		for _, c := range all(x, s, m, in, n) {
			if n > 0 && len(vs) == n-1 {
				break
			}
			end = c[0]
			if c[1] != 0 {
				vs = append(vs, in.Sub(beg, end))
			}
			beg = c[1]
		}
		if end != in.Len() {
			vs = append(vs, in.Sub(beg, in.Len()))
		}
		return x.newSlice(s, tStr, vs)
	})
	for _, n := range []string{"ReplaceAllStringFunc", "ReplaceAll", "ReplaceAllFunc", "ReplaceAllLiteral", "Expand", "ExpandString", "MatchReader", "FindReaderIndex"} {
		n := n
		R(n, func(x *X, s *State, m *reModel, a []Value) Value { panic(unsupported{"regexp." + n}) })
	}
	_ = fmt.Sprint
}
