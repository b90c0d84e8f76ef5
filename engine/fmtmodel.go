package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Native model of the parts of package fmt that matter here.

func initFmt() {
	ft := func(v Value) Value { return v }
	_ = ft
	spr := func(x *X, s *State, f *Str, va Value) *Str {
		return x.sprintf(s, f, x.variadic(s, va), nil)
	}
	m := map[string]intrinsicFn{
		"fmt.Sprintf": func(x *X, s *State, a []Value) Value { return spr(x, s, str(a[0]), a[1]) },
		"fmt.Sprint":  func(x *X, s *State, a []Value) Value { return x.sprint(s, x.variadic(s, a[0]), false) },
		"fmt.Sprintln": func(x *X, s *State, a []Value) Value {
			return concatStr(x.sprint(s, x.variadic(s, a[0]), true), cstr("\n"))
		},
		"fmt.Errorf": func(x *X, s *State, a []Value) Value {
			var wrapped []Iface
			msg := x.sprintf(s, str(a[0]), x.variadic(s, a[1]), &wrapped)
			switch len(wrapped) {
			case 0:
				return x.newError(s, msg)
			case 1:
				t := x.lookupType("fmt", "wrapError")
				id := x.alloc(s, t, 1)
				o := x.wObj(s, id)
				o.cells[0] = msg
				o.cells[1] = wrapped[0]
				return Iface{canon(types.NewPointer(t)), Ptr{id, 0}}
			}
			t := x.lookupType("fmt", "wrapErrors")
			id := x.alloc(s, t, 1)
			vals := make([]Value, len(wrapped))
			for i, w := range wrapped {
				vals[i] = w
			}
			el := t.Underlying().(*types.Struct).Field(1).Type().Underlying().(*types.Slice).Elem()
			sl := x.newSlice(s, el, vals)
			o := x.wObj(s, id)
			o.cells[0] = msg
			o.cells[1] = sl
			return Iface{canon(types.NewPointer(t)), Ptr{id, 0}}
		},
		"fmt.Fprintf": func(x *X, s *State, a []Value) Value {
			return x.writeTo(s, a[0].(Iface), spr(x, s, str(a[1]), a[2]))
		},
		"fmt.Fprint": func(x *X, s *State, a []Value) Value {
			return x.writeTo(s, a[0].(Iface), x.sprint(s, x.variadic(s, a[1]), false))
		},
		"fmt.Fprintln": func(x *X, s *State, a []Value) Value {
			return x.writeTo(s, a[0].(Iface), concatStr(x.sprint(s, x.variadic(s, a[1]), true), cstr("\n")))
		},
		// strconv on symbolic numbers
		"strconv.Itoa": func(x *X, s *State, a []Value) Value { return mkStr(x.decimal(s, a[0].(*Term), true)) },
		"strconv.FormatInt": func(x *X, s *State, a []Value) Value {
			if b := x.concretize(s, a[1].(*Term)); b != 10 {
				return cstr(strconv.FormatInt(int64(x.concretize(s, a[0].(*Term))), int(b)))
			}
			return mkStr(x.decimal(s, a[0].(*Term), true))
		},
		"strconv.Quote": func(x *X, s *State, a []Value) Value { return x.quote(s, str(a[0])) },
	}
	for k, v := range m {
		intrinsics[k] = v
	}
}

func (x *X) variadic(s *State, v Value) []Iface {
	sl := v.(Slice)
	r := make([]Iface, sl.len)
	if sl.len > 0 {
		o := x.getObj(s, sl.obj)
		for i := range r {
			r[i] = o.cells[sl.off+i].(Iface)
		}
	}
	return r
}

func (x *X) writeTo(s *State, w Iface, t *Str) Value {
	if w.t == nil {
		x.nilDeref(s)
	}
	f := s.frame()
	sl, ok := f.memo["wbuf"].(Slice)
	if !ok {
		sl = x.newBytes(s, t.Bytes())
		if f.memo == nil {
			f.memo = map[string]Value{}
		}
		f.memo["wbuf"] = sl
	}
	return x.callMethod(s, "write", w, "Write", sl)
}

// decimal digits of an integer; forks on sign and number of digits
func (x *X) decimal(s *State, t *Term, signed bool) []*Term {
	t = s.simp(t)
	if t.isConst() {
		var str string
		if signed {
			str = strconv.FormatInt(sext64(t.val, t.w), 10)
		} else {
			str = strconv.FormatUint(t.val, 10)
		}
		return cstr(str).Bytes()
	}
	var out []*Term
	if signed && x.decide(s, Slt(t, Const(t.w, 0))) {
		out = append(out, byteConst['-'])
		t = Neg(t)
	}
	n := 1
	p := uint64(10)
	for n < 20 {
		if t.w < 64 && p > mask(t.w) {
			break
		}
		if x.decide(s, Ult(t, Const(t.w, p))) {
			break
		}
		n++
		if n == 20 {
			break
		}
		p *= 10
	}
	div := uint64(1)
	digs := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		d := URem(UDiv(t, Const(t.w, div)), Const(t.w, 10))
		if i == 0 {
			d = UDiv(t, Const(t.w, div))
		}
		d8 := d
		if d.w > 8 {
			d8 = Extract(d, 0, 8)
		} else if d.w < 8 {
			d8 = Zext(d, 8)
		}
		digs[i] = Add(d8, byteConst['0'])
		div *= 10
	}
	return append(out, digs...)
}

func (x *X) quote(s *State, v *Str) *Str {
	if v.b == nil {
		return cstr(strconv.Quote(v.s))
	}
	out := []*Term{byteConst['"']}
	for i := 0; i < v.Len(); {
		b := v.At(i)
		if !b.isConst() {
			plain := And(And(Ule(byteConst[' '], b), Ule(b, byteConst['~'])), And(Not(Eq(b, byteConst['"'])), Not(Eq(b, byteConst['\\']))))
			if x.decide(s, plain) {
				out = append(out, b)
				i++
				continue
			}
		}
		var buf []byte
		for k := i; k < v.Len() && k < i+4; k++ {
			buf = append(buf, byte(x.concretize(s, v.At(k))))
			if utf8.FullRune(buf) {
				break
			}
		}
		_, n := utf8.DecodeRune(buf)
		q := strconv.Quote(string(buf[:n]))
		out = append(out, cstr(q[1:len(q)-1]).Bytes()...)
		i += n
	}
	return mkStr(append(out, byteConst['"']))
}

func (x *X) sprint(s *State, args []Iface, ln bool) *Str {
	r := emptyStr
	prevStr := true
	for i, a := range args {
		isStr := false
		if a.t != nil {
			isStr = isString(a.t)
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			r = concatStr(r, cstr(" "))
		}
		r = concatStr(r, x.fmtVal(s, a, 'v', "", fmt.Sprintf("p%d", i), 0))
		prevStr = isStr
	}
	return r
}

func (x *X) sprintf(s *State, f *Str, args []Iface, wrapped *[]Iface) *Str {
	format := x.concStr(s, f)
	r := emptyStr
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			r = concatStr(r, cstr(format[i:]))
			break
		}
		r = concatStr(r, cstr(format[i:i+j]))
		i += j + 1
		st := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[i]) >= 0 {
			i++
		}
		flags := format[st:i]
		if i >= len(format) {
			r = concatStr(r, cstr("%!(NOVERB)"))
			break
		}
		verb, n := utf8.DecodeRuneInString(format[i:])
		i += n
		if verb == '%' {
			r = concatStr(r, cstr("%"))
			continue
		}
		if strings.ContainsAny(flags, "*[]") {
			panic(unsupported{"format " + format})
		}
		if ai >= len(args) {
			r = concatStr(r, cstr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		if verb == 'w' {
			if wrapped != nil {
				*wrapped = append(*wrapped, a)
			}
			verb = 'v'
		}
		r = concatStr(r, x.fmtVal(s, a, verb, flags, fmt.Sprintf("f%d", ai), 0))
		ai++
	}
	if ai < len(args) {
		r = concatStr(r, cstr("%!(EXTRA "))
		for k := ai; k < len(args); k++ {
			if k > ai {
				r = concatStr(r, cstr(", "))
			}
			if args[k].t == nil {
				r = concatStr(r, cstr("<nil>"))
				continue
			}
			r = concatStr(r, cstr(typeString(args[k].t)+"="))
			r = concatStr(r, x.fmtVal(s, args[k], 'v', "", fmt.Sprintf("e%d", k), 0))
		}
		r = concatStr(r, cstr(")"))
	}
	return r
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (x *X) fmtVal(s *State, a Iface, verb rune, flags, key string, depth int) *Str {
	if a.t == nil {
		if verb == 'v' {
			return cstr("<nil>")
		}
		return cstr("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return cstr(typeString(a.t))
	}
	if n, ok := a.v.(*Native); ok {
		return cstr(fmt.Sprint(n.p))
	}
	if strings.ContainsRune("vsqxX", verb) && !strings.Contains(flags, "#") {
		for _, mn := range []string{"Error", "String"} {
			if fn := x.methodByName(a.t, mn); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 &&
				isString(fn.Signature.Results().At(0).Type()) {
				if p, isP := a.v.(Ptr); isP && p.obj == 0 {
					return cstr("<nil>")
				}
				v := x.callMethod(s, key+mn, a, mn).(*Str)
				return x.fmtStr(s, v, verb, flags)
			}
		}
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		switch v := a.v.(type) {
		case *Str:
			return x.fmtStr(s, v, verb, flags)
		case *Term:
			if v.w == 0 {
				if x.decide(s, v) {
					return cstr("true")
				}
				return cstr("false")
			}
			switch verb {
			case 'v', 'd':
				d := mkStr(x.decimal(s, v, isSigned(a.t)))
				return pad(d, flags)
			case 'c':
				return x.runeStr(s, v, isSigned(a.t))
			}
			c := x.concretize(s, v)
			if isSigned(a.t) {
				return cstr(fmt.Sprintf("%"+flags+string(verb), sext64(c, v.w)))
			}
			return cstr(fmt.Sprintf("%"+flags+string(verb), c))
		case float64:
			return cstr(fmt.Sprintf("%"+flags+string(verb), v))
		}
	case *types.Slice:
		sl := a.v.(Slice)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb != 'v' && verb != 'd' {
			return x.fmtStr(s, mkStr(x.sliceBytes(s, sl)), verb, flags)
		}
		r := cstr("[")
		for i, e := range x.sliceElems(s, sl, u.Elem()) {
			if i > 0 {
				r = concatStr(r, cstr(" "))
			}
			r = concatStr(r, x.fmtVal(s, toIface(e, u.Elem()), verb, flags, fmt.Sprintf("%s.%d", key, i), depth+1))
		}
		return concatStr(r, cstr("]"))
	case *types.Struct:
		r := cstr("{")
		ag := a.v.(Agg)
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				r = concatStr(r, cstr(" "))
			}
			ft := u.Field(i).Type()
			if strings.Contains(flags, "+") {
				r = concatStr(r, cstr(u.Field(i).Name()+":"))
			}
			n := ncells(ft)
			r = concatStr(r, x.fmtVal(s, toIface(fromCells(ft, ag[off:off+n]), ft), verb, flags, fmt.Sprintf("%s.%d", key, i), depth+1))
			off += n
		}
		return concatStr(r, cstr("}"))
	case *types.Pointer:
		p, _ := a.v.(Ptr)
		if p.obj == 0 {
			return cstr("<nil>")
		}
		if depth == 0 && isAgg(u.Elem()) && (verb == 'v' || verb == 's') {
			v := x.load(s, p, u.Elem())
			return concatStr(cstr("&"), x.fmtVal(s, Iface{u.Elem(), v}, verb, flags, key+"*", depth+1))
		}
		return cstr("0xc000010000")
	case *types.Map:
		m := a.v.(MapRef)
		if m.obj == 0 || len(x.getObj(s, m.obj).m.ents) == 0 {
			return cstr("map[]")
		}
	}
	panic(unsupported{"formatting of " + a.t.String()})
}

func toIface(v Value, t types.Type) Iface {
	if i, ok := v.(Iface); ok && types.IsInterface(t) {
		return i
	}
	return Iface{canon(t), v}
}

func pad(d *Str, flags string) *Str {
	if strings.HasPrefix(flags, "+") && (d.Len() == 0 || d.At(0) != byteConst['-']) {
		d = concatStr(cstr("+"), d)
	}
	flags = strings.TrimLeft(flags, "+")
	if flags == "" {
		return d
	}
	zero := flags[0] == '0'
	w, err := strconv.Atoi(flags)
	if err != nil {
		panic(unsupported{"format flags " + flags})
	}
	left := w < 0
	if left {
		w = -w
	}
	for d.Len() < w {
		switch {
		case left:
			d = concatStr(d, cstr(" "))
		case zero:
			d = concatStr(cstr("0"), d)
		default:
			d = concatStr(cstr(" "), d)
		}
	}
	return d
}

func (x *X) fmtStr(s *State, v *Str, verb rune, flags string) *Str {
	switch verb {
	case 'v', 's':
		f := strings.Trim(flags, "+")
		if f == "" {
			return v
		}
		if strings.HasPrefix(f, "#") {
			return x.quote(s, v)
		}
		return cstr(fmt.Sprintf("%"+flags+string(verb), x.concStr(s, v)))
	case 'q':
		return x.quote(s, v)
	}
	return cstr(fmt.Sprintf("%"+flags+string(verb), x.concStr(s, v)))
}
