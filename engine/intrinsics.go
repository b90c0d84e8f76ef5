package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(x *X, s *State, args []Value) Value

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (x *X) intrinsic(fn *ssa.Function) intrinsicFn {
	if h, ok := x.intrCache[fn]; ok {
		return h
	}
	n := fullName(fn)
	h := intrinsics[n]
	if h == nil && x.modPath != "" {
		if r := strings.TrimPrefix(n, x.modPath+"/internal/"); r != n {
			h = intrinsics[r]
		}
	}
	if h == nil && fn.Synthetic == "" {
		// promoted/embedded wrappers are interpreted
	}
	x.intrCache[fn] = h
	return h
}

var intrinsics map[string]intrinsicFn

func str(v Value) *Str { return v.(*Str) }

func nop(x *X, s *State, args []Value) Value { return Tuple{} }
func retConst(v Value) intrinsicFn {
	return func(x *X, s *State, args []Value) Value { return v }
}

func matchAt(a []*Term, i int, pat []*Term) *Term {
	r := tTrue
	for k := len(pat) - 1; k >= 0; k-- {
		r = And(Eq(a[i+k], pat[k]), r)
		if r == tFalse {
			return r
		}
	}
	return r
}

func indexTerm(a, pat []*Term) *Term {
	r := Const(64, mask(64))
	for i := len(a) - len(pat); i >= 0; i-- {
		r = Ite(matchAt(a, i, pat), Const(64, uint64(i)), r)
	}
	return r
}

// first or last position of one of constant ASCII characters
func anyOf(last, contains bool) func(x *X, s *State, a []Value) Value {
	return func(x *X, s *State, a []Value) Value {
		set := str(a[1])
		if set.b != nil {
			return fallThrough{}
		}
		for i := 0; i < len(set.s); i++ {
			if set.s[i] >= 0x80 {
				return fallThrough{}
			}
		}
		t := bytesArg(x, s, a[0])
		r := Const(64, mask(64))
		any := tFalse
		for k := range t {
			i := k
			if !last {
				i = len(t) - 1 - k
			}
			m := tFalse
			for j := 0; j < len(set.s); j++ {
				m = Or(m, Eq(t[i], Const(8, uint64(set.s[j]))))
			}
			any = Or(m, any)
			r = Ite(m, Const(64, uint64(i)), r)
		}
		if contains {
			return any
		}
		return r
	}
}

// position of a constant ASCII character
func runeIn(contains bool) func(x *X, s *State, a []Value) Value {
	return func(x *X, s *State, a []Value) Value {
		r := a[1].(*Term)
		if !r.isConst() || r.val >= 0x80 {
			return fallThrough{}
		}
		t, c := bytesArg(x, s, a[0]), []*Term{Const(8, r.val)}
		if contains {
			return containsTerm(t, c)
		}
		return indexTerm(t, c)
	}
}

func lastIndexTerm(a, pat []*Term) *Term {
	r := Const(64, mask(64))
	for i := 0; i+len(pat) <= len(a); i++ {
		r = Ite(matchAt(a, i, pat), Const(64, uint64(i)), r)
	}
	return r
}

func containsTerm(a, pat []*Term) *Term {
	r := tFalse
	for i := len(a) - len(pat); i >= 0; i-- {
		r = Or(matchAt(a, i, pat), r)
	}
	return r
}

func countTerm(a []*Term, c *Term) *Term {
	r := Const(64, 0)
	for _, t := range a {
		r = Add(r, Ite(Eq(t, c), Const(64, 1), Const(64, 0)))
	}
	return r
}

func compareTerm(a, b *Str) *Term {
	return Ite(strEq(a, b), Const(64, 0), Ite(strLess(a, b, false), Const(64, mask(64)), Const(64, 1)))
}

func lowerT(t *Term) *Term {
	return Ite(And(Ule(Const(8, 'A'), t), Ule(t, Const(8, 'Z'))), Add(t, Const(8, 32)), t)
}
func upperT(t *Term) *Term {
	return Ite(And(Ule(Const(8, 'a'), t), Ule(t, Const(8, 'z'))), Sub(t, Const(8, 32)), t)
}

// case mapping of a string whose symbolic bytes are ASCII
func (x *X) caseMap(s *State, a *Str, asc func(*Term) *Term, uni func(rune) rune) *Str {
	if a.b == nil {
		return cstr(strings.Map(uni, a.s))
	}
	var out []*Term
	for i := 0; i < a.Len(); {
		b := a.At(i)
		if !b.isConst() && (b.hi < 0x80 || x.decide(s, Ult(b, Const(8, 0x80)))) {
			out = append(out, asc(b))
			i++
			continue
		}
		r, n := x.decodeRune(s, a, i)
		if r.isConst() {
			for _, c := range []byte(string(uni(rune(r.val)))) {
				out = append(out, byteConst[c])
			}
		} else {
			out = append(out, x.runeBytes(s, x.runeMap(s, r, uni))...)
		}
		i += n
	}
	return mkStr(out)
}

func bytesArg(x *X, s *State, v Value) []*Term {
	switch v := v.(type) {
	case Slice:
		return x.sliceBytes(s, v)
	case *Str:
		return v.Bytes()
	}
	panic(unsupported{fmt.Sprintf("bytes of %T", v)})
}

func (x *X) lookupType(path, name string) types.Type {
	p := x.prog.ImportedPackage(path)
	if p == nil {
		panic(unsupported{"package " + path + " is not loaded"})
	}
	t := p.Type(name)
	if t == nil {
		panic(unsupported{"type " + path + "." + name})
	}
	return t.Type()
}

func (x *X) newError(s *State, msg *Str) Iface {
	t := x.lookupType("errors", "errorString")
	id := x.alloc(s, t, 1)
	x.wObj(s, id).cells[0] = msg
	return Iface{canon(types.NewPointer(t)), Ptr{id, 0}}
}

func init() {
	intrinsics = map[string]intrinsicFn{
		// --- verif API
		"verif.Bool": func(x *X, s *State, a []Value) Value {
			n := x.ndName(s, str(a[0]))
			x.noteInput(n, "true or false")
			v := Var(n, 0)
			s.nd = append(s.nd, NDRec{Name: n, T: v})
			return v
		},
		"verif.Byte": func(x *X, s *State, a []Value) Value {
			n := x.ndName(s, str(a[0]))
			x.noteInput(n, "any byte")
			v := Var(n, 8)
			s.nd = append(s.nd, NDRec{Name: n, T: v})
			return v
		},
		"verif.Uint32": func(x *X, s *State, a []Value) Value {
			n := x.ndName(s, str(a[0]))
			x.noteInput(n, "any 32-bit number")
			v := Var(n, 32)
			s.nd = append(s.nd, NDRec{Name: n, T: v})
			return v
		},
		"verif.Int":    intrInt,
		"verif.Int64":  intrInt,
		"verif.Choose": intrChoose,
		"verif.Str":    intrStr,
		"verif.Bytes": func(x *X, s *State, a []Value) Value {
			n := x.concInt(s, a[1])
			name := x.ndName(s, str(a[0]))
			x.noteBytes(name, "", n)
			b := make([]*Term, n)
			for i := range b {
				nm := fmt.Sprintf("%s[%d]", name, i)
				b[i] = Var(nm, 8)
				s.nd = append(s.nd, NDRec{Name: nm, T: b[i]})
			}
			return x.newBytes(s, b)
		},
		"verif.Assume": func(x *X, s *State, a []Value) Value {
			c := s.simp(a[0].(*Term))
			if c.isConst() {
				if c.val == 0 {
					panic(deadPath{"assume"})
				}
				return Tuple{}
			}
			ft, _, mt, _ := x.sides(s, c)
			if !ft {
				panic(deadPath{"assume"})
			}
			s.addPC(c)
			s.setModel(mt)
			return Tuple{}
		},
		"verif.Assert": intrAssert,
		"verif.Reach": func(x *X, s *State, a []Value) Value {
			l := x.concStr(s, str(a[0]))
			for _, r := range s.reached {
				if r == l {
					return Tuple{}
				}
			}
			s.reached = append(s.reached, l)
			return Tuple{}
		},
		"verif.Observe": func(x *X, s *State, a []Value) Value {
			ifc := a[1].(Iface)
			var v Value = ifc.v
			if sl, ok := v.(Slice); ok {
				v = Tuple(x.sliceElems(s, sl, ifc.t.Underlying().(*types.Slice).Elem()))
			}
			s.obs = append(s.obs, Observation{x.concStr(s, str(a[0])), v, ifc.t})
			return Tuple{}
		},
		"verif.Parallel": intrParallel,
		"verif.NoMerge": func(x *X, s *State, a []Value) Value {
			s.native["nomerge"] = tTrue
			return Tuple{}
		},
		"verif.Symbolic": retConst(tTrue),
		"verif.Tier":     func(x *X, s *State, a []Value) Value { return Const(64, uint64(x.tier)) },
		"verif.Concretize": func(x *X, s *State, a []Value) Value {
			return Const(64, x.concretize(s, a[0].(*Term)))
		},
		"verif.Yield": nop,
		"verif.Unsupported": func(x *X, s *State, a []Value) Value {
			panic(unsupported{"model: " + x.concStr(s, str(a[0]))})
		},
		"verif.Methods": func(x *X, s *State, a []Value) Value {
			ifc := a[0].(Iface)
			ms := x.prog.MethodSets.MethodSet(ifc.t)
			var l []Value
			for i := 0; i < ms.Len(); i++ {
				if m := ms.At(i).Obj(); m.Exported() {
					l = append(l, cstr(m.Name()))
				}
			}
			return x.newSlice(s, types.Typ[types.String], l)
		},

		// --- strings / bytes
		"internal/bytealg.IndexByte":       func(x *X, s *State, a []Value) Value { return indexTerm(bytesArg(x, s, a[0]), []*Term{a[1].(*Term)}) },
		"internal/bytealg.IndexByteString": func(x *X, s *State, a []Value) Value { return indexTerm(bytesArg(x, s, a[0]), []*Term{a[1].(*Term)}) },
		"internal/bytealg.LastIndexByte": func(x *X, s *State, a []Value) Value {
			return lastIndexTerm(bytesArg(x, s, a[0]), []*Term{a[1].(*Term)})
		},
		"internal/bytealg.LastIndexByteString": func(x *X, s *State, a []Value) Value {
			return lastIndexTerm(bytesArg(x, s, a[0]), []*Term{a[1].(*Term)})
		},
		"internal/bytealg.Index":       func(x *X, s *State, a []Value) Value { return indexTerm(bytesArg(x, s, a[0]), bytesArg(x, s, a[1])) },
		"internal/bytealg.IndexString": func(x *X, s *State, a []Value) Value { return indexTerm(bytesArg(x, s, a[0]), bytesArg(x, s, a[1])) },
		"strings.Index":                func(x *X, s *State, a []Value) Value { return indexTerm(bytesArg(x, s, a[0]), bytesArg(x, s, a[1])) },
		"internal/stringslite.Index":   func(x *X, s *State, a []Value) Value { return indexTerm(bytesArg(x, s, a[0]), bytesArg(x, s, a[1])) },
		"bytes.Index":                  func(x *X, s *State, a []Value) Value { return indexTerm(bytesArg(x, s, a[0]), bytesArg(x, s, a[1])) },
		"strings.LastIndex": func(x *X, s *State, a []Value) Value {
			return lastIndexTerm(bytesArg(x, s, a[0]), bytesArg(x, s, a[1]))
		},
		"bytes.LastIndex": func(x *X, s *State, a []Value) Value {
			return lastIndexTerm(bytesArg(x, s, a[0]), bytesArg(x, s, a[1]))
		},
		"strings.Contains":             func(x *X, s *State, a []Value) Value { return containsTerm(bytesArg(x, s, a[0]), bytesArg(x, s, a[1])) },
		"bytes.Contains":               func(x *X, s *State, a []Value) Value { return containsTerm(bytesArg(x, s, a[0]), bytesArg(x, s, a[1])) },
		"internal/bytealg.Count":       func(x *X, s *State, a []Value) Value { return countTerm(bytesArg(x, s, a[0]), a[1].(*Term)) },
		"internal/bytealg.CountString": func(x *X, s *State, a []Value) Value { return countTerm(bytesArg(x, s, a[0]), a[1].(*Term)) },
		"internal/bytealg.Equal": func(x *X, s *State, a []Value) Value {
			return strEq(mkStr(bytesArg(x, s, a[0])), mkStr(bytesArg(x, s, a[1])))
		},
		"bytes.Equal": func(x *X, s *State, a []Value) Value {
			return strEq(mkStr(bytesArg(x, s, a[0])), mkStr(bytesArg(x, s, a[1])))
		},
		"internal/bytealg.Compare": func(x *X, s *State, a []Value) Value {
			return compareTerm(mkStr(bytesArg(x, s, a[0])), mkStr(bytesArg(x, s, a[1])))
		},
		"bytes.Compare": func(x *X, s *State, a []Value) Value {
			return compareTerm(mkStr(bytesArg(x, s, a[0])), mkStr(bytesArg(x, s, a[1])))
		},
		"internal/bytealg.CompareString": func(x *X, s *State, a []Value) Value { return compareTerm(str(a[0]), str(a[1])) },
		"strings.Compare":                func(x *X, s *State, a []Value) Value { return compareTerm(str(a[0]), str(a[1])) },
		"internal/bytealg.MakeNoZero": func(x *X, s *State, a []Value) Value {
			n := x.concInt(s, a[0])
			id := x.alloc(s, types.Typ[types.Uint8], n)
			return Slice{id, 0, n, n}
		},
		"strings.ToLower": func(x *X, s *State, a []Value) Value { return x.caseMap(s, str(a[0]), lowerT, unicode.ToLower) },
		"strings.ToUpper": func(x *X, s *State, a []Value) Value { return x.caseMap(s, str(a[0]), upperT, unicode.ToUpper) },
		"strings.EqualFold": func(x *X, s *State, a []Value) Value {
			p, q := x.caseMap(s, str(a[0]), lowerT, unicode.ToLower), x.caseMap(s, str(a[1]), lowerT, unicode.ToLower)
			return strEq(p, q)
		},
		"unicode.ToLower": func(x *X, s *State, a []Value) Value {
			return x.runeCase(s, a[0].(*Term), 'A', 'Z', 32, unicode.ToLower)
		},
		"unicode.ToUpper": func(x *X, s *State, a []Value) Value {
			return x.runeCase(s, a[0].(*Term), 'a', 'z', ^uint64(31), unicode.ToUpper)
		},
		"unicode.IsLetter":               runePred(unicode.IsLetter),
		"unicode.IsDigit":                runePred(unicode.IsDigit),
		"unicode.IsNumber":               runePred(unicode.IsNumber),
		"unicode.IsSpace":                runePred(unicode.IsSpace),
		"unicode.IsUpper":                runePred(unicode.IsUpper),
		"unicode.IsLower":                runePred(unicode.IsLower),
		"unicode.IsPunct":                runePred(unicode.IsPunct),
		"unicode.IsControl":              runePred(unicode.IsControl),
		"unicode.IsPrint":                runePred(unicode.IsPrint),
		"utf8.RuneCountInString":         nil,
		"unicode/utf8.RuneCountInString": func(x *X, s *State, a []Value) Value { return Const(64, uint64(len(x.runes(s, str(a[0]))))) },
		"unicode/utf8.RuneCount": func(x *X, s *State, a []Value) Value {
			return Const(64, uint64(len(x.runes(s, mkStr(bytesArg(x, s, a[0]))))))
		},
		"unicode/utf8.DecodeRuneInString": func(x *X, s *State, a []Value) Value { return x.decRune(s, str(a[0])) },
		"unicode/utf8.DecodeRune": func(x *X, s *State, a []Value) Value {
			if v, ok := a[0].(Slice); ok && v.len > utf8.UTFMax {
				v.len = utf8.UTFMax // scanners decode the beginning of long buffers
				return x.decRune(s, mkStr(x.sliceBytes(s, v)))
			}
			return x.decRune(s, mkStr(bytesArg(x, s, a[0])))
		},
		"unicode/utf8.ValidString": func(x *X, s *State, a []Value) Value {
			st := str(a[0])
			if st.b == nil {
				return BoolT(utf8.ValidString(st.s))
			}
			for _, t := range st.b {
				if t.hi >= 0x80 {
					return fallThrough{}
				}
			}
			return tTrue
		},
		"strings.Clone":        func(x *X, s *State, a []Value) Value { return a[0] },
		"strings.IndexAny":     anyOf(false, false),
		"strings.ContainsAny":  anyOf(false, true),
		"strings.LastIndexAny": anyOf(true, false),
		"bytes.IndexAny":       anyOf(false, false),
		"bytes.ContainsAny":    anyOf(false, true),
		"bytes.LastIndexAny":   anyOf(true, false),
		"strings.IndexRune":    runeIn(false),
		"strings.ContainsRune": runeIn(true),
		"bytes.IndexRune":      runeIn(false),
		"bytes.ContainsRune":   runeIn(true),

		"internal/abi.NoEscape":         func(x *X, s *State, a []Value) Value { return a[0] },
		"internal/abi.Escape":           func(x *X, s *State, a []Value) Value { return a[0] },
		"runtime.KeepAlive":             nop,
		"runtime.SetFinalizer":          nop,
		"runtime.GC":                    nop,
		"runtime.Gosched":               nop,
		"internal/race.Enable":          nop,
		"internal/race.Disable":         nop,
		"(*sync.Mutex).Lock":            intrLock,
		"(*sync.Mutex).Unlock":          intrUnlock,
		"(*sync.Mutex).TryLock":         intrTryLock,
		"(*internal/sync.Mutex).Lock":   intrLock,
		"(*internal/sync.Mutex).Unlock": intrUnlock,
		"(*sync.RWMutex).Lock":          intrLock,
		"(*sync.RWMutex).Unlock":        intrUnlock,
		"(*sync.RWMutex).RLock":         intrRLock,
		"(*sync.RWMutex).RUnlock":       intrRUnlock,
		"(*sync.WaitGroup).Add":         intrWGAdd,
		"(*sync.WaitGroup).Done": func(x *X, s *State, a []Value) Value {
			return intrWGAdd(x, s, []Value{a[0], Const(64, mask(64))})
		},
		"(*sync.WaitGroup).Wait": intrWGWait,
		"(*sync.Pool).Get": func(x *X, s *State, a []Value) Value {
			p := a[0].(Ptr)
			t := x.lookupType("sync", "Pool").Underlying().(*types.Struct)
			o := x.getObj(s, p.obj)
			off := p.off
			for i := 0; i < t.NumFields(); i++ {
				if t.Field(i).Name() == "New" {
					c := o.cells[off].(*Closure)
					if c == nil {
						return Iface{}
					}
					return x.callback(s, "poolnew", c, nil)
				}
				off += ncells(t.Field(i).Type())
			}
			return Iface{}
		},
		"(*sync.Pool).Put": nop,
		"errors.As":        intrErrorsAs,

		"time.Now":            func(x *X, s *State, a []Value) Value { return zeroVal(x.lookupType("time", "Time")) },
		"os.runtime_args":     retConst(Slice{}),
		"runtime.NumCPU":      retConst(Const(64, 8)),
		"syscall.Getpagesize": retConst(Const(64, 4096)),

		"math.Float64bits": func(x *X, s *State, a []Value) Value { return fallThrough{} },
	}
	for _, w := range []string{"32", "64"} {
		for _, k := range []string{"Int", "Uint"} {
			n := k + w
			intrinsics["sync/atomic.Load"+n] = atomicLoad
			intrinsics["sync/atomic.Store"+n] = atomicStore
			intrinsics["sync/atomic.Add"+n] = atomicAdd
			intrinsics["sync/atomic.CompareAndSwap"+n] = atomicCAS
			intrinsics["sync/atomic.Swap"+n] = atomicSwap
			intrinsics["sync/atomic.And"+n] = func(x *X, s *State, a []Value) Value {
				return atomicRMW(x, s, a[0], func(o *Term) *Term { return BAnd(o, a[1].(*Term)) })
			}
			intrinsics["sync/atomic.Or"+n] = func(x *X, s *State, a []Value) Value {
				return atomicRMW(x, s, a[0], func(o *Term) *Term { return BOr(o, a[1].(*Term)) })
			}
		}
	}
	for _, n := range []string{"Pointer", "Uintptr"} {
		intrinsics["sync/atomic.Load"+n] = atomicLoad
		intrinsics["sync/atomic.Store"+n] = atomicStore
		intrinsics["sync/atomic.CompareAndSwap"+n] = atomicCAS
		intrinsics["sync/atomic.Swap"+n] = atomicSwap
	}
	delete(intrinsics, "utf8.RuneCountInString")
	initFmt()
	initReflect()
	initJSON()
	initRegexp()
}

func (x *X) runeCase(s *State, r *Term, lo, hi, d uint64, uni func(rune) rune) Value {
	if r.isConst() {
		return Const(32, uint64(uint32(uni(rune(int32(r.val))))))
	}
	if r.hi < 0x80 || x.decide(s, Ult(r, Const(32, 0x80))) {
		return Ite(And(Ule(Const(32, lo), r), Ule(r, Const(32, hi))), Add(r, Const(32, d)), r)
	}
	return x.runeMap(s, r, uni)
}

// a mapping of a rune that lies in a small range
func (x *X) runeMap(s *State, r *Term, uni func(rune) rune) *Term {
	if r.isConst() || r.hi-r.lo > 2048 {
		return Const(32, uint64(uint32(uni(rune(int32(x.concretize(s, r)))))))
	}
	out := r
	for i := int64(r.lo); i <= int64(r.hi); {
		d := int64(uni(rune(i))) - i
		j := i
		for j < int64(r.hi) && int64(uni(rune(j+1)))-(j+1) == d {
			j++
		}
		if d != 0 {
			out = Ite(And(Ule(Const(32, uint64(i)), r), Ule(r, Const(32, uint64(j)))), Add(r, Const(32, uint64(d))), out)
		}
		i = j + 1
	}
	return out
}

func runePred(p func(rune) bool) intrinsicFn {
	return func(x *X, s *State, a []Value) Value {
		r := a[0].(*Term)
		if r.isConst() {
			return BoolT(p(rune(int32(r.val))))
		}
		if r.hi < 0x80 || x.decide(s, Ult(r, Const(32, 0x80))) {
			c := tFalse
			for i := 0; i < 128; {
				if !p(rune(i)) {
					i++
					continue
				}
				j := i
				for j+1 < 128 && p(rune(j+1)) {
					j++
				}
				c = Or(c, And(Ule(Const(32, uint64(i)), r), Ule(r, Const(32, uint64(j)))))
				i = j + 1
			}
			return c
		}
		return BoolT(p(rune(int32(x.concretize(s, r)))))
	}
}

func (x *X) decRune(s *State, st *Str) Value {
	if st.Len() == 0 {
		return Tuple{Const(32, uint64(utf8.RuneError)), Const(64, 0)}
	}
	r, n := x.decodeRune(s, st, 0)
	return Tuple{r, Const(64, uint64(n))}
}

func (x *X) ndName(s *State, l *Str) string {
	label := x.concStr(s, l)
	k := s.ndCount[label]
	s.ndCount[label] = k + 1
	return fmt.Sprintf("%s#%d", label, k)
}

// inputRange: the values explored for the inputs with the same label
type inputRange struct {
	times  int             // most inputs with this label on a path
	kinds  map[string]bool // descriptions other than of strings
	lo, hi map[string]int  // lengths by alphabet
}

func (x *X) noteInput(name, kind string) *inputRange {
	i := strings.LastIndexByte(name, '#')
	label := name[:i]
	k, _ := strconv.Atoi(name[i+1:])
	r := x.inputSeen[label]
	if r == nil {
		if x.inputSeen == nil {
			x.inputSeen = map[string]*inputRange{}
		}
		r = &inputRange{kinds: map[string]bool{}, lo: map[string]int{}, hi: map[string]int{}}
		x.inputSeen[label] = r
	}
	if k+1 > r.times {
		r.times = k + 1
	}
	if kind != "" && len(r.kinds) < 20 {
		r.kinds[kind] = true
	}
	return r
}

func (x *X) noteBytes(name, alphabet string, n int) {
	r := x.noteInput(name, "")
	if lo, ok := r.lo[alphabet]; !ok || n < lo {
		if !ok && len(r.lo) >= 20 {
			return
		}
		r.lo[alphabet] = n
	}
	if n > r.hi[alphabet] {
		r.hi[alphabet] = n
	}
}

// inputBounds describes the values explored for each input
func (x *X) inputBounds() []string {
	var out []string
	for label, r := range x.inputSeen {
		var l []string
		for k := range r.kinds {
			l = append(l, k)
		}
		for a, lo := range r.lo {
			n := strconv.Itoa(lo)
			if hi := r.hi[a]; hi > lo {
				n += " to " + strconv.Itoa(hi)
			}
			if a == "" {
				l = append(l, n+" arbitrary bytes")
			} else {
				l = append(l, n+" bytes of "+strconv.Quote(a))
			}
		}
		sort.Strings(l)
		s := label + ": " + strings.Join(l, " or ")
		if r.times > 1 {
			s += fmt.Sprintf("; up to %d times", r.times)
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func bitsFor(n uint64) uint8 {
	w := uint8(1)
	for w < 64 && n>>w != 0 {
		w++
	}
	return w
}

// Int(label, lo, hi): lo + variable, the variable being just wide enough
func intrInt(x *X, s *State, a []Value) Value {
	lo, hi := int64(x.concretize(s, a[1].(*Term))), int64(x.concretize(s, a[2].(*Term)))
	if lo > hi {
		panic(deadPath{"empty range"})
	}
	n := x.ndName(s, str(a[0]))
	x.noteInput(n, fmt.Sprintf("%d to %d", lo, hi))
	span := uint64(hi) - uint64(lo)
	var t *Term
	if span == 0 {
		t = Const(64, uint64(lo))
	} else if span == mask(64) {
		t = Var(n, 64)
	} else {
		w := bitsFor(span)
		v := Var(n, w)
		if span != mask(w) {
			c := Ule(v, Const(w, span))
			_, _, m, _ := x.sides(s, c)
			s.addPC(c)
			s.setModel(m)
		}
		t = Add(Const(64, uint64(lo)), Zext(v, 64))
	}
	s.nd = append(s.nd, NDRec{Name: n, T: t, Sgn: true})
	return t
}

// Choose(label, n): a concrete number below n, one path each
func intrChoose(x *X, s *State, a []Value) Value {
	f := s.frame()
	t, ok := f.memo["choose"].(*Term)
	if !ok {
		n := x.concretize(s, a[1].(*Term))
		t = intrInt(x, s, []Value{a[0], Const(64, 0), Const(64, n-1)}).(*Term)
		if f.memo == nil {
			f.memo = map[string]Value{}
		}
		f.memo["choose"] = t
	}
	return Const(64, x.concretize(s, t))
}

// Str(label, n, alphabet): n bytes, each any byte of the alphabet
func intrStr(x *X, s *State, a []Value) Value {
	n := x.concInt(s, a[1])
	alpha := x.concStr(s, str(a[2]))
	if len(alpha) == 0 && n > 0 {
		panic(unsupported{"empty alphabet"})
	}
	name := x.ndName(s, str(a[0]))
	if n == 0 {
		alpha = ""
	}
	x.noteBytes(name, alpha, n)
	b := make([]*Term, n)
	for i := range b {
		nm := fmt.Sprintf("%s[%d]", name, i)
		var t *Term
		if len(alpha) == 1 {
			t = byteConst[alpha[0]]
		} else {
			w := bitsFor(uint64(len(alpha) - 1))
			v := Var(nm, w)
			t = byteConst[alpha[0]]
			// contiguous alphabets become arithmetic, others a chain of constants
			contig := len(alpha) == 1<<w
			for k := 1; k < len(alpha); k++ {
				if alpha[k] != alpha[0]+byte(k) {
					contig = false
				}
			}
			if contig {
				t = Add(Zext(v, 8), byteConst[alpha[0]])
			} else {
				for k := len(alpha) - 1; k >= 1; k-- {
					t = Ite(Eq(v, Const(w, uint64(k))), byteConst[alpha[k]], t)
				}
			}
		}
		b[i] = t
		s.nd = append(s.nd, NDRec{Name: nm, T: t})
	}
	return mkStr(b)
}

func intrAssert(x *X, s *State, a []Value) Value {
	msg := x.concStr(s, str(a[1]))
	x.assertMsgs[msg]++
	c := s.simp(a[0].(*Term))
	if c == tTrue {
		x.nTrivial++
		return Tuple{}
	}
	if c == tFalse {
		x.nTrivial++
		x.violation(s, msg, s.model)
		panic(deadPath{"assertion failed"})
	}
	x.nAsserts++
	if s.eval(c) == 0 {
		x.violation(s, msg, s.model)
	} else {
		r, m := x.solver.Check(s.pc, Not(c), s.model)
		switch r {
		case Unsat:
			s.known[c.id] = 1
			return Tuple{}
		case Unknown:
			x.unknowns++
			x.incompleteAt("solver gave no answer on an assertion")
			return Tuple{}
		}
		x.violation(s, msg, m)
	}
	// continue on the side where it holds
	ft, _, mt, _ := x.sides(s, c)
	if !ft {
		panic(deadPath{"assertion failed"})
	}
	s.addPC(c)
	s.setModel(mt)
	return Tuple{}
}

// ---- synchronization

func intrLock(x *X, s *State, a []Value) Value {
	p := a[0].(Ptr)
	o := x.getObj(s, p.obj)
	if t := o.cells[p.off].(*Term); t.val != 0 {
		panic(blocked{})
	}
	w := x.wObj(s, p.obj)
	w.cells[p.off] = Const(w.cells[p.off].(*Term).w, 1)
	return Tuple{}
}

func intrTryLock(x *X, s *State, a []Value) Value {
	p := a[0].(Ptr)
	o := x.getObj(s, p.obj)
	if t := o.cells[p.off].(*Term); t.val != 0 {
		return tFalse
	}
	intrLock(x, s, a)
	return tTrue
}

func intrUnlock(x *X, s *State, a []Value) Value {
	p := a[0].(Ptr)
	o := x.getObj(s, p.obj)
	t := o.cells[p.off].(*Term)
	if t.val == 0 {
		x.throw(s, "sync: unlock of unlocked mutex")
	}
	x.wObj(s, p.obj).cells[p.off] = Const(t.w, 0)
	s.wake()
	return Tuple{}
}

func intrRLock(x *X, s *State, a []Value) Value {
	p := a[0].(Ptr)
	o := x.getObj(s, p.obj)
	t := o.cells[p.off].(*Term)
	if t.val == 1 {
		panic(blocked{})
	}
	x.wObj(s, p.obj).cells[p.off] = Const(t.w, t.val+2)
	return Tuple{}
}

func intrRUnlock(x *X, s *State, a []Value) Value {
	p := a[0].(Ptr)
	o := x.getObj(s, p.obj)
	t := o.cells[p.off].(*Term)
	if t.val < 2 {
		x.throw(s, "sync: RUnlock of unlocked RWMutex")
	}
	x.wObj(s, p.obj).cells[p.off] = Const(t.w, t.val-2)
	s.wake()
	return Tuple{}
}

// WaitGroup: the counter lives in the last scalar cell of the structure
func wgCell(x *X, s *State, p Ptr) int {
	n := ncells(x.lookupType("sync", "WaitGroup"))
	o := x.getObj(s, p.obj)
	for i := 0; i < n; i++ {
		if t, ok := o.cells[p.off+i].(*Term); ok && t.w >= 32 {
			return p.off + i
		}
	}
	panic(unsupported{"WaitGroup layout"})
}

func intrWGAdd(x *X, s *State, a []Value) Value {
	p := a[0].(Ptr)
	k := wgCell(x, s, p)
	o := x.wObj(s, p.obj)
	t := o.cells[k].(*Term)
	d := x.concretize(s, a[1].(*Term))
	o.cells[k] = Const(t.w, t.val+d)
	s.wake()
	return Tuple{}
}

func intrWGWait(x *X, s *State, a []Value) Value {
	p := a[0].(Ptr)
	k := wgCell(x, s, p)
	if x.getObj(s, p.obj).cells[k].(*Term).val != 0 {
		panic(blocked{})
	}
	return Tuple{}
}

func atomCell(x *X, s *State, v Value) (Ptr, Value) {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported{"atomic operation on symbolic address"})
	}
	if p.obj == 0 {
		x.nilDeref(s)
	}
	return p, x.getObj(s, p.obj).cells[p.off]
}

func atomicLoad(x *X, s *State, a []Value) Value {
	_, v := atomCell(x, s, a[0])
	return v
}
func atomicStore(x *X, s *State, a []Value) Value {
	p, _ := atomCell(x, s, a[0])
	o := x.wObj(s, p.obj)
	o.cells[p.off] = a[1]
	x.publish(s, o, a[1])
	s.wake()
	return Tuple{}
}
func atomicRMW(x *X, s *State, p Value, f func(*Term) *Term) Value {
	q, v := atomCell(x, s, p)
	x.wObj(s, q.obj).cells[q.off] = f(v.(*Term))
	return v
}
func atomicAdd(x *X, s *State, a []Value) Value {
	q, v := atomCell(x, s, a[0])
	r := Add(v.(*Term), a[1].(*Term))
	x.wObj(s, q.obj).cells[q.off] = r
	return r
}
func atomicCAS(x *X, s *State, a []Value) Value {
	q, v := atomCell(x, s, a[0])
	if x.decide(s, x.equal(s, v, a[1], nil)) {
		o := x.wObj(s, q.obj)
		o.cells[q.off] = a[2]
		x.publish(s, o, a[2])
		s.wake()
		return tTrue
	}
	return tFalse
}
func atomicSwap(x *X, s *State, a []Value) Value {
	q, v := atomCell(x, s, a[0])
	x.wObj(s, q.obj).cells[q.off] = a[1]
	return v
}

// errors.As(err, target any) bool
func intrErrorsAs(x *X, s *State, a []Value) Value {
	err := a[0].(Iface)
	tgt := a[1].(Iface)
	pt, ok := tgt.t.Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported{"errors.As target"})
	}
	el := pt.Elem()
	for depth := 0; err.t != nil && depth < 20; depth++ {
		match := false
		if it, isI := el.Underlying().(*types.Interface); isI {
			match = types.Implements(err.t, it)
		} else {
			match = canon(err.t) == canon(el)
		}
		if match {
			if types.IsInterface(el) {
				x.store(s, tgt.v, el, err)
			} else {
				x.store(s, tgt.v, el, err.v)
			}
			return tTrue
		}
		if x.methodByName(err.t, "Unwrap") == nil {
			return tFalse
		}
		n, ok := x.callMethod(s, fmt.Sprintf("unwrap%d", depth), err, "Unwrap").(Iface)
		if !ok {
			panic(unsupported{"errors.As on joined errors"})
		}
		err = n
	}
	return tFalse
}
