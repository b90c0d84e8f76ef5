package main

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// reflect.Value: a Go value or an addressable location
type rval struct {
	t    types.Type
	v    Value
	addr Value // Ptr when addressable
}

var rtypes = map[types.Type]*Native{}

func rtypeOf(t types.Type) *Native {
	t = canon(t)
	if n, ok := rtypes[t]; ok {
		return n
	}
	n := &Native{kind: "rtype", p: t}
	rtypes[t] = n
	return n
}

func (x *X) rtypeIface(t types.Type) Iface {
	return Iface{canon(types.NewPointer(x.lookupType("reflect", "rtype"))), rtypeOf(t)}
}

func (x *X) mkRval(t types.Type, v Value, addr Value) Value {
	n := ncells(x.lookupType("reflect", "Value"))
	a := make(Agg, n)
	zeroCells(x.lookupType("reflect", "Value"), a)
	a[0] = &Native{kind: "rval", p: &rval{t, v, addr}}
	return a
}

func getRval(v Value) *rval {
	a := v.(Agg)
	if n, ok := a[0].(*Native); ok {
		return n.p.(*rval)
	}
	return nil
}

func (x *X) needRval(s *State, v Value) *rval {
	r := getRval(v)
	if r == nil {
		x.throw(s, "reflect: call of method on zero Value")
	}
	return r
}

func (x *X) rvalVal(s *State, r *rval) Value {
	if r.addr != nil {
		return x.load(s, r.addr, r.t)
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (x *X) zeroRval() Value { return zeroVal(x.lookupType("reflect", "Value")) }

func (x *X) rElem(s *State, a Value) Value {
	r := x.needRval(s, a)
	v := x.rvalVal(s, r)
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported{"reflect Elem of a symbolic pointer"})
		}
		if p.obj == 0 {
			return x.zeroRval()
		}
		return x.mkRval(u.Elem(), nil, p)
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return x.zeroRval()
		}
		return x.mkRval(i.t, i.v, nil)
	}
	x.throw(s, "reflect: call of reflect.Value.Elem on "+kindOf(r.t).String()+" Value")
	return nil
}

func (x *X) rField(s *State, r *rval, i int) Value {
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok || i < 0 || i >= st.NumFields() {
		x.throw(s, "reflect: Field index out of range")
	}
	off := layout(r.t).offs[i]
	ft := st.Field(i).Type()
	if p, ok := r.addr.(Ptr); ok {
		return x.mkRval(ft, nil, Ptr{p.obj, p.off + off})
	}
	return x.mkRval(ft, fromCells(ft, r.v.(Agg)[off:off+ncells(ft)]), nil)
}

// interface holding a value of type t
func ifaceOf(t types.Type, v Value) Iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(Iface)
	}
	return Iface{canon(t), v}
}

func (x *X) structField(st *types.Struct, i int) Value {
	sf := x.lookupType("reflect", "StructField")
	u := sf.Underlying().(*types.Struct)
	a := zeroVal(sf).(Agg)
	f := st.Field(i)
	for k := 0; k < u.NumFields(); k++ {
		off := layout(sf).offs[k]
		switch u.Field(k).Name() {
		case "Name":
			a[off] = cstr(f.Name())
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				a[off] = cstr(f.Pkg().Path())
			}
		case "Type":
			a[off] = x.rtypeIface(f.Type())
		case "Tag":
			a[off] = cstr(st.Tag(i))
		case "Anonymous":
			a[off] = BoolT(f.Embedded())
		}
	}
	return a
}

func rt(v Value) types.Type { return v.(*Native).p.(types.Type) }

func nativeMethod(name string) func(x *X, s *State, a []Value) Value {
	return func(x *X, s *State, a []Value) Value {
		n := a[0].(*Native)
		if n.kind != "rtype" {
			panic(unsupported{"method " + name + " of " + n.kind})
		}
		t := rt(n)
		switch name {
		case "Kind":
			return Const(64, uint64(kindOf(t)))
		case "NumField":
			return Const(64, uint64(t.Underlying().(*types.Struct).NumFields()))
		case "Field":
			return x.structField(t.Underlying().(*types.Struct), x.concInt(s, a[1]))
		case "Elem":
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return x.rtypeIface(u.Elem())
			case *types.Slice:
				return x.rtypeIface(u.Elem())
			case *types.Array:
				return x.rtypeIface(u.Elem())
			case *types.Map:
				return x.rtypeIface(u.Elem())
			}
		case "Key":
			if m, ok := t.Underlying().(*types.Map); ok {
				return x.rtypeIface(m.Key())
			}
		case "Len":
			if m, ok := t.Underlying().(*types.Array); ok {
				return Const(64, uint64(m.Len()))
			}
		case "Name":
			switch u := t.(type) {
			case *types.Named:
				return cstr(u.Obj().Name())
			case *types.Basic:
				return cstr(u.Name())
			}
			return emptyStr
		case "PkgPath":
			if u, ok := t.(*types.Named); ok && u.Obj().Pkg() != nil {
				return cstr(u.Obj().Pkg().Path())
			}
			return emptyStr
		case "String":
			return cstr(typeString(t))
		case "Comparable":
			return BoolT(types.Comparable(t))
		case "NumMethod":
			ms := x.prog.MethodSets.MethodSet(t)
			k := 0
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					k++
				}
			}
			return Const(64, uint64(k))
		case "Implements":
			u := rt(a[1].(Iface).v)
			return BoolT(types.Implements(t, u.Underlying().(*types.Interface)))
		case "AssignableTo":
			return BoolT(types.AssignableTo(t, rt(a[1].(Iface).v)))
		case "FieldByName":
			st := t.Underlying().(*types.Struct)
			nm := x.concStr(s, str(a[1]))
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == nm {
					return Tuple{x.structField(st, i), tTrue}
				}
			}
			return Tuple{zeroVal(x.lookupType("reflect", "StructField")), tFalse}
		}
		panic(unsupported{"reflect.Type." + name})
	}
}

func (x *X) valueLen(s *State, t types.Type, v Value) int {
	switch v := v.(type) {
	case Slice:
		return v.len
	case *Str:
		return v.Len()
	case MapRef:
		if v.obj == 0 {
			return 0
		}
		return len(x.getObj(s, v.obj).m.ents)
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return int(a.Len())
	}
	panic(unsupported{"reflect Len"})
}

func (x *X) rIsZero(s *State, t types.Type, v Value) *Term {
	switch u := v.(type) {
	case *Term:
		if u.w == 0 {
			return Not(u)
		}
		return Eq(u, Const(u.w, 0))
	case *Str:
		return BoolT(u.Len() == 0)
	case Ptr:
		return BoolT(u.obj == 0)
	case Slice:
		return BoolT(u.obj == 0)
	case MapRef:
		return BoolT(u.obj == 0)
	case Iface:
		return BoolT(u.t == nil)
	case *Closure:
		return BoolT(u == nil)
	case float64:
		return BoolT(u == 0)
	case Agg:
		r := tTrue
		for _, e := range u {
			r = And(r, x.rIsZero(s, nil, e))
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("IsZero of %T", v)})
}

func initReflect() {
	I := intrinsics
	I["reflect.ValueOf"] = func(x *X, s *State, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return x.zeroRval()
		}
		return x.mkRval(i.t, i.v, nil)
	}
	I["reflect.TypeOf"] = func(x *X, s *State, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return x.rtypeIface(i.t)
	}
	I["reflect.Indirect"] = func(x *X, s *State, a []Value) Value {
		r := getRval(a[0])
		if r == nil || kindOf(r.t) != reflect.Ptr {
			return a[0]
		}
		return x.rElem(s, a[0])
	}
	I["reflect.New"] = func(x *X, s *State, a []Value) Value {
		t := rt(a[0].(Iface).v)
		return x.mkRval(types.NewPointer(t), Ptr{x.alloc(s, t, 1), 0}, nil)
	}
	I["reflect.Zero"] = func(x *X, s *State, a []Value) Value {
		t := rt(a[0].(Iface).v)
		return x.mkRval(t, zeroVal(t), nil)
	}
	I["reflect.DeepEqual"] = func(x *X, s *State, a []Value) Value { panic(unsupported{"reflect.DeepEqual"}) }
	V := func(name string, f func(x *X, s *State, r *rval, a []Value) Value) {
		I["(reflect.Value)."+name] = func(x *X, s *State, a []Value) Value {
			return f(x, s, x.needRval(s, a[0]), a)
		}
	}
	I["(reflect.Value).IsValid"] = func(x *X, s *State, a []Value) Value { return BoolT(getRval(a[0]) != nil) }
	I["(reflect.Value).Kind"] = func(x *X, s *State, a []Value) Value {
		if r := getRval(a[0]); r != nil {
			return Const(64, uint64(kindOf(r.t)))
		}
		return Const(64, 0)
	}
	I["(reflect.Value).Elem"] = func(x *X, s *State, a []Value) Value { return x.rElem(s, a[0]) }
	V("Type", func(x *X, s *State, r *rval, a []Value) Value { return x.rtypeIface(r.t) })
	V("NumField", func(x *X, s *State, r *rval, a []Value) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			x.throw(s, "reflect: call of reflect.Value.NumField on "+kindOf(r.t).String()+" Value")
		}
		return Const(64, uint64(st.NumFields()))
	})
	V("Field", func(x *X, s *State, r *rval, a []Value) Value { return x.rField(s, r, x.concInt(s, a[1])) })
	V("FieldByName", func(x *X, s *State, r *rval, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		nm := x.concStr(s, str(a[1]))
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == nm {
				return x.rField(s, r, i)
			}
		}
		return x.zeroRval()
	})
	V("Interface", func(x *X, s *State, r *rval, a []Value) Value { return ifaceOf(r.t, x.rvalVal(s, r)) })
	V("CanInterface", func(x *X, s *State, r *rval, a []Value) Value { return tTrue })
	V("CanAddr", func(x *X, s *State, r *rval, a []Value) Value { return BoolT(r.addr != nil) })
	V("Addr", func(x *X, s *State, r *rval, a []Value) Value {
		if r.addr == nil {
			x.throw(s, "reflect.Value.Addr of unaddressable value")
		}
		return x.mkRval(types.NewPointer(r.t), r.addr, nil)
	})
	V("IsNil", func(x *X, s *State, r *rval, a []Value) Value {
		v := x.rvalVal(s, r)
		switch v.(type) {
		case Ptr, Slice, MapRef, Iface, *Closure, ChanRef:
			return x.rIsZero(s, r.t, v)
		}
		x.throw(s, "reflect: call of reflect.Value.IsNil on "+kindOf(r.t).String()+" Value")
		return nil
	})
	V("IsZero", func(x *X, s *State, r *rval, a []Value) Value { return x.rIsZero(s, r.t, x.rvalVal(s, r)) })
	V("Len", func(x *X, s *State, r *rval, a []Value) Value {
		return Const(64, uint64(x.valueLen(s, r.t, x.rvalVal(s, r))))
	})
	V("Int", func(x *X, s *State, r *rval, a []Value) Value {
		t := x.rvalVal(s, r).(*Term)
		return Sext(t, 64)
	})
	V("Uint", func(x *X, s *State, r *rval, a []Value) Value { return Zext(x.rvalVal(s, r).(*Term), 64) })
	V("Bool", func(x *X, s *State, r *rval, a []Value) Value { return x.rvalVal(s, r) })
	V("String", func(x *X, s *State, r *rval, a []Value) Value {
		if v, ok := x.rvalVal(s, r).(*Str); ok {
			return v
		}
		return cstr("<" + typeString(r.t) + " Value>")
	})
	V("Index", func(x *X, s *State, r *rval, a []Value) Value {
		i := x.concInt(s, a[1])
		v := x.rvalVal(s, r)
		if sl, ok := v.(Slice); ok {
			el := r.t.Underlying().(*types.Slice).Elem()
			if i < 0 || i >= sl.len {
				x.throw(s, "reflect: slice index out of range")
			}
			return x.mkRval(el, nil, Ptr{sl.obj, sl.off + i*ncells(el)})
		}
		panic(unsupported{"reflect Index"})
	})
	V("Set", func(x *X, s *State, r *rval, a []Value) Value {
		q := x.needRval(s, a[1])
		if r.addr == nil {
			x.throw(s, "reflect.Set: value is not settable")
		}
		v := x.rvalVal(s, q)
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			v = ifaceOf(q.t, v)
		}
		x.store(s, r.addr, r.t, v)
		return Tuple{}
	})

	// internal/reflectlite: used by sort.Slice and errors.Is
	I["internal/reflectlite.TypeOf"] = func(x *X, s *State, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{canon(types.NewPointer(x.lookupType("internal/reflectlite", "rtype"))), rtypeOf(i.t)}
	}
	I["internal/reflectlite.ValueOf"] = func(x *X, s *State, a []Value) Value {
		i := a[0].(Iface)
		v := zeroVal(x.lookupType("internal/reflectlite", "Value")).(Agg)
		if i.t != nil {
			v[0] = &Native{kind: "rval", p: &rval{i.t, i.v, nil}}
		}
		return v
	}
	I["(internal/reflectlite.Value).Len"] = func(x *X, s *State, a []Value) Value {
		r := x.needRval(s, a[0])
		return Const(64, uint64(x.valueLen(s, r.t, x.rvalVal(s, r))))
	}
	I["(internal/reflectlite.Value).IsValid"] = I["(reflect.Value).IsValid"]
	I["internal/reflectlite.Swapper"] = func(x *X, s *State, a []Value) Value {
		i := a[0].(Iface)
		sl, ok := i.v.(Slice)
		if !ok {
			x.throw(s, "reflect: call of Swapper on non-slice")
		}
		el := i.t.Underlying().(*types.Slice).Elem()
		n := ncells(el)
		return &Closure{name: "swapper", native: func(x *X, s *State, a []Value) Value {
			p, q := x.concInt(s, a[0]), x.concInt(s, a[1])
			if p < 0 || q < 0 || p >= sl.len || q >= sl.len {
				x.throw(s, "reflect: slice index out of range")
			}
			o := x.wObj(s, sl.obj)
			for k := 0; k < n; k++ {
				u, v := sl.off+p*n+k, sl.off+q*n+k
				o.cells[u], o.cells[v] = o.cells[v], o.cells[u]
			}
			return Tuple{}
		}}
	}
	I["reflect.Swapper"] = I["internal/reflectlite.Swapper"]
}

var _ ssa.Value
