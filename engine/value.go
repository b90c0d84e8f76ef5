package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Value interface{}

// Immutable string: concrete (b == nil) or a vector of byte terms.
type Str struct {
	s string
	b []*Term
}

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

var byteConst [256]*Term

func init() {
	for i := range byteConst {
		byteConst[i] = Const(8, uint64(i))
	}
}

func (s *Str) At(i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return byteConst[s.s[i]]
}

func (s *Str) Bytes() []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = byteConst[s.s[i]]
	}
	return r
}

func (s *Str) Sub(i, j int) *Str {
	if s.b != nil {
		return mkStr(s.b[i:j])
	}
	return &Str{s: s.s[i:j]}
}

func (s *Str) Concrete() (string, bool) {
	if s.b != nil {
		return "", false
	}
	return s.s, true
}

var emptyStr = &Str{}

func cstr(s string) *Str { return &Str{s: s} }

func mkStr(b []*Term) *Str {
	if len(b) == 0 {
		return emptyStr
	}
	for _, t := range b {
		if !t.isConst() {
			return &Str{b: b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.val)
	}
	return &Str{s: string(r)}
}

func concatStr(a, b *Str) *Str {
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	if a.b == nil && b.b == nil {
		return &Str{s: a.s + b.s}
	}
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(r, a.Bytes()...)
	r = append(r, b.Bytes()...)
	return &Str{b: r}
}

type Ptr struct {
	obj int32
	off int
}

// pointer to element idx (symbolic) of a run of n elements
type SymPtr struct {
	obj    int32
	base   int
	stride int
	n      int
	idx    *Term
	sub    int
}

type Slice struct {
	obj      int32
	off      int
	len, cap int
}

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Closure struct {
	fn     *ssa.Function
	binds  []Value
	native func(x *X, st *State, args []Value) Value
	name   string
}

type MapRef struct{ obj int32 }
type Agg []Value
type Tuple []Value
type Native struct {
	kind string
	p    interface{}
}
type NilFunc struct{}

type MapEntry struct{ k, v Value }
type MapData struct {
	ents []MapEntry
	idx  map[string]int // concrete string keys / ints -> position, nil when symbolic keys present
}

type Obj struct {
	tok   *int
	elem  types.Type // element type; cells = count * ncells(elem)
	cells []Value
	m     *MapData
	it    *MapIter
	ch    *ChanData
	owner int // thread that allocated it, -1: shared
}

type MapIter struct {
	keys []Value
	pos  int
	m    int32
	str  *Str
	spos int
}

// ---- types

var hasher = typeutil.MakeHasher()
var canonMap typeutil.Map
var canonFast = map[types.Type]types.Type{}

func canon(t types.Type) types.Type {
	if c, ok := canonFast[t]; ok {
		return c
	}
	c, _ := canonMap.At(t).(types.Type)
	if c == nil {
		canonMap.Set(t, t)
		c = t
	}
	canonFast[t] = c
	return c
}

type layoutInfo struct {
	n    int
	offs []int
}

var layoutCache = map[types.Type]*layoutInfo{}

func layout(t types.Type) *layoutInfo {
	if l, ok := layoutCache[t]; ok {
		return l
	}
	l := &layoutInfo{n: 1}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l.n = 0
		for i := 0; i < u.NumFields(); i++ {
			l.offs = append(l.offs, l.n)
			l.n += layout(u.Field(i).Type()).n
		}
	case *types.Array:
		l.n = int(u.Len()) * layout(u.Elem()).n
	case *types.Tuple:
		l.n = u.Len()
	}
	layoutCache[t] = l
	return l
}

func ncells(t types.Type) int { return layout(t).n }

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func widthOf(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zeroVal(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Info()&types.IsString != 0:
			return emptyStr
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
		return Const(widthOf(u), 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return MapRef{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return ChanRef{}
	case *types.Struct, *types.Array:
		a := make(Agg, ncells(t))
		zeroCells(t, a)
		return a
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zeroVal(u.At(i).Type())
		}
		return r
	}
	panic(unsupported{"zero value of " + t.String()})
}

type ChanRef struct{ obj int32 }

func zeroCells(t types.Type, c []Value) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := ncells(u.Field(i).Type())
			zeroCells(u.Field(i).Type(), c[o:o+n])
			o += n
		}
	case *types.Array:
		n := ncells(u.Elem())
		if n == 0 || u.Len() == 0 {
			return
		}
		zeroCells(u.Elem(), c[:n])
		for i := 1; i < int(u.Len()); i++ {
			if n == 1 && !isAgg(u.Elem()) {
				c[i] = c[0]
			} else {
				zeroCells(u.Elem(), c[i*n:(i+1)*n])
			}
		}
	default:
		c[0] = zeroVal(t)
	}
}

// cells of a value of type t
func toCells(t types.Type, v Value) []Value {
	if isAgg(t) {
		return v.(Agg)
	}
	return []Value{v}
}

func fromCells(t types.Type, c []Value) Value {
	if isAgg(t) {
		r := make(Agg, len(c))
		copy(r, c)
		return r
	}
	return c[0]
}

func showVal(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		if v.isConst() {
			if v.w == 0 {
				return fmt.Sprint(v.val == 1)
			}
			return fmt.Sprint(sext64(v.val, v.w))
		}
		return "sym" + fmt.Sprint(v.id)
	case *Str:
		if v.b == nil {
			return fmt.Sprintf("%q", v.s)
		}
		var b strings.Builder
		b.WriteByte('"')
		for _, t := range v.b {
			if t.isConst() {
				b.WriteByte(byte(t.val))
			} else {
				b.WriteByte('?')
			}
		}
		b.WriteByte('"')
		return b.String()
	case Ptr:
		return fmt.Sprintf("&%d.%d", v.obj, v.off)
	case Slice:
		return fmt.Sprintf("[%d+%d:%d:%d]", v.obj, v.off, v.len, v.cap)
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return "(" + v.t.String() + ")" + showVal(v.v)
	case *Closure:
		if v == nil {
			return "nilfunc"
		}
		if v.fn != nil {
			return v.fn.String()
		}
		return v.name
	case Agg:
		var s []string
		for _, e := range v {
			s = append(s, showVal(e))
		}
		return "{" + strings.Join(s, " ") + "}"
	case Tuple:
		var s []string
		for _, e := range v {
			s = append(s, showVal(e))
		}
		return "(" + strings.Join(s, ", ") + ")"
	}
	return fmt.Sprintf("%T%v", v, v)
}

// structural identity of immutable values (no solver)
func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.Len() != y.Len() {
			return false
		}
		if x.b == nil && y.b == nil {
			return x.s == y.s
		}
		for i := 0; i < x.Len(); i++ {
			if x.At(i) != y.At(i) {
				return false
			}
		}
		return true
	case Ptr, SymPtr, Slice, MapRef, ChanRef, float64, complex128:
		return a == b
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return canon(x.t) == canon(y.t) && sameVal(x.v, y.v)
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil || x.fn == nil || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *Native:
		return a == b
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}
