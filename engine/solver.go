package main

// z3 over a pipe: incremental QF_BV, one define-fun per shared term, one push/pop per query,
// with constraint slicing and a result cache in front.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Solver struct {
	bin      string
	args     []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	defined  map[int32]bool
	ndef     int
	cache    map[string]cached
	Queries  int
	SatN     int
	UnsatN   int
	UnknownN int
	CacheHit int
	Time     time.Duration
	MaxTime  time.Duration
	timeout  int
	errs     []string
}

type cached struct {
	r SatResult
	m Model
}

func NewSolver(timeoutMs int) *Solver {
	s := &Solver{bin: "z3-new", args: []string{"-in", "-smt2"}, cache: map[string]cached{}, timeout: timeoutMs}
	if _, err := exec.LookPath(s.bin); err != nil {
		s.bin = "z3"
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.ndef = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func ref(t *Term) string {
	switch t.op {
	case OpConst:
		return constStr(t.w, t.val)
	case OpVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

var smtOp = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpShl: "bvshl",
	OpLShr: "bvlshr", OpAShr: "bvashr", OpConcat: "concat"}

func (s *Solver) define(t *Term) {
	if t.op == OpConst || s.defined[t.id] {
		return
	}
	// iterative post-order
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OpConst || s.defined[x.id] {
			stack = stack[:len(stack)-1]
			continue
		}
		pend := false
		for _, k := range []*Term{x.a, x.b, x.c} {
			if k != nil && k.op != OpConst && !s.defined[k.id] {
				stack = append(stack, k)
				pend = true
			}
		}
		if pend {
			continue
		}
		stack = stack[:len(stack)-1]
		s.defined[x.id] = true
		s.ndef++
		if x.op == OpVar {
			fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", x.name, sortOf(x.w))
			continue
		}
		fmt.Fprintf(s.in, "(define-fun t%d () %s ", x.id, sortOf(x.w))
		switch x.op {
		case OpZext:
			fmt.Fprintf(s.in, "((_ zero_extend %d) %s)", x.w-x.a.w, ref(x.a))
		case OpSext:
			fmt.Fprintf(s.in, "((_ sign_extend %d) %s)", x.w-x.a.w, ref(x.a))
		case OpExtract:
			fmt.Fprintf(s.in, "((_ extract %d %d) %s)", x.val+uint64(x.w)-1, x.val, ref(x.a))
		default:
			s.in.WriteString("(" + smtOp[x.op])
			for _, k := range []*Term{x.a, x.b, x.c} {
				if k != nil {
					s.in.WriteString(" " + ref(k))
				}
			}
			s.in.WriteString(")")
		}
		s.in.WriteString(")\n")
	}
}

func (s *Solver) line() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// vars of a term, cached
var varsCache = map[int32][]*Term{}

func termVars(t *Term) []*Term {
	if t.op == OpConst {
		return nil
	}
	if v, ok := varsCache[t.id]; ok {
		return v
	}
	var r []*Term
	if t.op == OpVar {
		r = []*Term{t}
	} else {
		var lists [][]*Term
		for _, k := range []*Term{t.a, t.b, t.c} {
			if k != nil {
				if l := termVars(k); len(l) > 0 {
					lists = append(lists, l)
				}
			}
		}
		if len(lists) == 1 {
			r = lists[0]
		} else if len(lists) > 1 {
			r = lists[0]
			for _, l := range lists[1:] {
				r = mergeVars(r, l)
			}
		}
	}
	varsCache[t.id] = r
	return r
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].id < b[j].id:
			r = append(r, a[i])
			i++
		case a[i].id > b[j].id:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	return append(r, b[j:]...)
}

// Check satisfiability of pc /\ c, assuming pc alone is satisfied by base.
// Only the part of pc sharing variables with c is sent. The returned model
// extends base.
func (s *Solver) Check(pc []*Term, c *Term, base Model) (SatResult, Model) {
	if c.op == OpConst {
		if c.val == 0 {
			return Unsat, nil
		}
		return Sat, base
	}
	sl := s.slice(pc, c)
	key := make([]byte, 0, len(sl)*5)
	ids := make([]int, len(sl))
	for i, t := range sl {
		ids[i] = int(t.id)
	}
	sort.Ints(ids)
	for _, i := range ids {
		key = strconv.AppendInt(key, int64(i), 36)
		key = append(key, ',')
	}
	k := string(key)
	res, ok := s.cache[k]
	if ok {
		s.CacheHit++
	} else {
		res.r, res.m = s.query(sl)
		s.cache[k] = res
	}
	if res.r != Sat {
		return res.r, nil
	}
	m := make(Model, len(base)+len(res.m))
	for k, v := range base {
		m[k] = v
	}
	for k, v := range res.m {
		m[k] = v
	}
	return Sat, m
}

func (s *Solver) slice(pc []*Term, c *Term) []*Term {
	cur := map[int32]bool{}
	for _, v := range termVars(c) {
		cur[v.id] = true
	}
	out := []*Term{c}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, t := range pc {
			if used[i] {
				continue
			}
			vs := termVars(t)
			hit := false
			for _, v := range vs {
				if cur[v.id] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, t)
				for _, v := range vs {
					if !cur[v.id] {
						cur[v.id] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

func (s *Solver) query(cs []*Term) (SatResult, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	s.Queries++
	if s.ndef > 150000 {
		s.restart()
	}
	for attempt := 0; ; attempt++ {
		r, m, err := s.query1(cs)
		if err == nil {
			switch r {
			case Sat:
				s.SatN++
			case Unsat:
				s.UnsatN++
			default:
				s.UnknownN++
			}
			return r, m
		}
		s.errs = append(s.errs, err.Error())
		s.restart()
		if attempt >= 1 {
			s.UnknownN++
			return Unknown, nil
		}
	}
}

func (s *Solver) query1(cs []*Term) (SatResult, Model, error) {
	var vars []*Term
	for _, t := range cs {
		s.define(t)
		vars = mergeVars(vars, termVars(t))
	}
	s.in.WriteString("(push)\n")
	for _, t := range cs {
		s.in.WriteString("(assert " + ref(t) + ")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	l, err := s.line()
	if err != nil {
		return Unknown, nil, err
	}
	var r SatResult
	var m Model
	switch l {
	case "sat":
		r = Sat
		m = Model{}
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vars {
				s.in.WriteString(" " + ref(v))
			}
			s.in.WriteString("))\n")
			if err := s.in.Flush(); err != nil {
				return Unknown, nil, err
			}
			txt, err := s.sexp()
			if err != nil {
				return Unknown, nil, err
			}
			if err := parseModel(txt, m); err != nil {
				return Unknown, nil, err
			}
		}
		ev := newEval(m)
		for _, t := range cs {
			if ev.eval(t) != 1 {
				return Unknown, nil, fmt.Errorf("model does not satisfy %s", ref(t))
			}
		}
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
		r = Unknown
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", l)
	}
	s.in.WriteString("(pop)\n")
	return r, m, nil
}

func (s *Solver) sexp() (string, error) {
	var b strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if inBar {
			if c == '|' {
				inBar = false
			}
		} else {
			switch c {
			case '|':
				inBar = true
			case '(':
				depth++
			case ')':
				depth--
			}
		}
		if depth == 0 && b.Len() == 0 && (c == '\n' || c == ' ') {
			continue
		}
		b.WriteByte(c)
		if depth == 0 {
			// swallow the end of line
			for {
				p, err := s.out.Peek(1)
				if err != nil || (p[0] != '\n' && p[0] != '\r') {
					break
				}
				s.out.ReadByte()
				break
			}
			return b.String(), nil
		}
	}
}

func parseModel(txt string, m Model) error {
	// ((|name| #x00) (|b| true) (name #b0))
	i := 0
	n := len(txt)
	if n == 0 || txt[0] != '(' {
		return fmt.Errorf("bad model %q", txt)
	}
	i = 1
	for i < n {
		for i < n && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		if i >= n || txt[i] == ')' {
			return nil
		}
		if txt[i] != '(' {
			return fmt.Errorf("bad model %q", txt)
		}
		i++
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := strings.IndexAny(txt[i:], " \n")
			name = txt[i : i+j]
			i += j
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		var v uint64
		if txt[i] == '(' { // (_ bvN w)
			j := strings.IndexByte(txt[i:], ')')
			f := strings.Fields(txt[i+1 : i+j])
			v, _ = strconv.ParseUint(strings.TrimPrefix(f[1], "bv"), 10, 64)
			i += j + 1
		} else {
			j := strings.IndexByte(txt[i:], ')')
			tok := strings.TrimSpace(txt[i : i+j])
			i += j
			var err error
			switch {
			case tok == "true":
				v = 1
			case tok == "false":
				v = 0
			case strings.HasPrefix(tok, "#x"):
				v, err = strconv.ParseUint(tok[2:], 16, 64)
			case strings.HasPrefix(tok, "#b"):
				v, err = strconv.ParseUint(tok[2:], 2, 64)
			default:
				err = fmt.Errorf("bad value %q", tok)
			}
			if err != nil {
				return err
			}
		}
		m[name] = v
		for i < n && txt[i] != ')' {
			i++
		}
		i++
	}
	return nil
}

var _ = io.EOF
