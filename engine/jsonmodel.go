package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// model of encoding/json (encoding side): produces the real bytes

type jfield struct {
	name      string
	omitEmpty bool
	asString  bool
	path      []int
	tagged    bool
	t         types.Type
}

var jfieldCache = map[types.Type][]jfield{}

func jsonFields(t types.Type) []jfield {
	if f, ok := jfieldCache[t]; ok {
		return f
	}
	type node struct {
		t    types.Type
		path []int
	}
	var all []jfield
	seen := map[types.Type]bool{}
	level := []node{{t, nil}}
	for len(level) > 0 {
		var next []node
		var here []jfield
		for _, n := range level {
			nt := n.t
			if p, ok := nt.Underlying().(*types.Pointer); ok {
				nt = p.Elem()
			}
			if seen[nt] {
				continue
			}
			seen[nt] = true
			st := nt.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				ft := f.Type()
				base := ft
				if p, ok := ft.Underlying().(*types.Pointer); ok && f.Embedded() {
					base = p.Elem()
				}
				_, isStruct := base.Underlying().(*types.Struct)
				if f.Embedded() {
					if !f.Exported() && !isStruct {
						continue
					}
				} else if !f.Exported() {
					continue
				}
				tag := reflect.StructTag(st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				name, opts, _ := strings.Cut(tag, ",")
				path := append(append([]int(nil), n.path...), i)
				if f.Embedded() && isStruct && name == "" {
					next = append(next, node{ft, path})
					continue
				}
				jf := jfield{name: name, tagged: name != "", path: path, t: ft}
				if name == "" {
					jf.name = f.Name()
				}
				for _, o := range strings.Split(opts, ",") {
					if o == "omitempty" {
						jf.omitEmpty = true
					}
					if o == "string" {
						jf.asString = true
					}
				}
				here = append(here, jf)
			}
		}
		// names already taken by a shallower level hide these
		taken := map[string]bool{}
		for _, f := range all {
			taken[f.name] = true
		}
		for _, f := range here {
			if taken[f.name] {
				continue
			}
			n, tags := 0, 0
			for _, g := range here {
				if g.name == f.name {
					n++
					if g.tagged {
						tags++
					}
				}
			}
			if n == 1 || f.tagged && tags == 1 {
				all = append(all, f)
			} else {
				all = append(all, jfield{name: f.name, path: nil})
			}
		}
		level = next
	}
	var out []jfield
	for _, f := range all {
		if f.path != nil {
			out = append(out, f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i].path, out[j].path
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	jfieldCache[t] = out
	return out
}

type jsonEnc struct {
	x     *X
	s     *State
	out   []*Term
	n     int // callback counter
	html  bool
	depth int
}

type jsonErr struct{ err Iface }

func (e *jsonEnc) lit(s string) {
	for i := 0; i < len(s); i++ {
		e.out = append(e.out, byteConst[s[i]])
	}
}

func hasMethod(x *X, t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, false, nil, name)
	f, ok := o.(*types.Func)
	if !ok {
		return false
	}
	// pointer receiver methods are not in the method set of a value
	ms := x.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(f.Pkg(), name)
	return sel != nil
}

const hexDigits = "0123456789abcdef"

func (e *jsonEnc) str(v *Str) {
	x, s := e.x, e.s
	e.lit(`"`)
	for i := 0; i < v.Len(); {
		t := v.At(i)
		if !t.isConst() {
			plain := And(Not(Ult(t, byteConst[0x20])), Ult(t, byteConst[0x80]))
			for _, c := range "\"\\" {
				plain = And(plain, Not(Eq(t, byteConst[c])))
			}
			if e.html {
				for _, c := range "<>&" {
					plain = And(plain, Not(Eq(t, byteConst[c])))
				}
			}
			if x.decide(s, plain) {
				e.out = append(e.out, t)
				i++
				continue
			}
			x.concretize(s, t)
			t = s.simp(t)
		}
		b := byte(t.val)
		if b < 0x80 {
			switch {
			case b == '"' || b == '\\':
				e.lit("\\" + string(rune(b)))
			case b == '\b':
				e.lit("\\b")
			case b == '\f':
				e.lit("\\f")
			case b == '\n':
				e.lit("\\n")
			case b == '\r':
				e.lit("\\r")
			case b == '\t':
				e.lit("\\t")
			case b < 0x20 || e.html && (b == '<' || b == '>' || b == '&'):
				e.lit("\\u00" + hexDigits[b>>4:b>>4+1] + hexDigits[b&15:b&15+1])
			default:
				e.out = append(e.out, t)
			}
			i++
			continue
		}
		r, n := x.decodeRune(s, v, i)
		if r.val == 0xFFFD && n == 1 {
			e.lit("\\ufffd")
		} else if r.val == 0x2028 || r.val == 0x2029 {
			e.lit("\\u202" + hexDigits[r.val&15:r.val&15+1])
		} else {
			for k := 0; k < n; k++ {
				e.out = append(e.out, byteConst[byte(x.concretize(s, v.At(i+k)))])
			}
		}
		i += n
	}
	e.lit(`"`)
}

func (e *jsonEnc) marshaler(t types.Type, v Value) bool {
	if !hasMethod(e.x, t, "MarshalJSON") {
		if hasMethod(e.x, t, "MarshalText") {
			panic(unsupported{"json: MarshalText"})
		}
		return false
	}
	if p, ok := v.(Ptr); ok && p.obj == 0 {
		e.lit("null")
		return true
	}
	e.n++
	r := e.x.callMethod(e.s, fmt.Sprintf("json%d", e.n), Iface{canon(t), v}, "MarshalJSON").(Tuple)
	if er := r[1].(Iface); er.t != nil {
		panic(jsonErr{er})
	}
	e.compact(e.x.sliceBytes(e.s, r[0].(Slice)))
	return true
}

// like json.Compact with HTML escaping
func (e *jsonEnc) compact(b []*Term) {
	x, s := e.x, e.s
	inStr, esc := false, false
	allConst := true
	for _, t := range b {
		if !t.isConst() {
			allConst = false
		}
	}
	if allConst {
		raw := make([]byte, len(b))
		for i, t := range b {
			raw[i] = byte(t.val)
		}
		if !json.Valid(raw) {
			panic(jsonErr{x.newError(s, cstr("json: error calling MarshalJSON: invalid output"))})
		}
	}
	for _, t := range b {
		t = s.simp(t)
		is := func(c byte) bool {
			if t.isConst() {
				return byte(t.val) == c
			}
			return x.decide(s, Eq(t, byteConst[c]))
		}
		if !inStr {
			if t.isConst() && strings.IndexByte(" \t\r\n", byte(t.val)) >= 0 {
				continue
			}
			if is('"') {
				inStr = true
			}
		} else if esc {
			esc = false
		} else if is('\\') {
			esc = true
		} else if is('"') {
			inStr = false
		}
		if e.html && (is('<') || is('>') || is('&')) {
			c := byte(x.concretize(s, t))
			e.lit("\\u00" + hexDigits[c>>4:c>>4+1] + hexDigits[c&15:c&15+1])
			continue
		}
		e.out = append(e.out, t)
	}
}

func (e *jsonEnc) value(t types.Type, v Value, addr Value) {
	x, s := e.x, e.s
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 200 {
		panic(unsupported{"json nesting"})
	}
	if _, isIface := t.Underlying().(*types.Interface); !isIface {
		if e.marshaler(t, v) {
			return
		}
		if addr != nil {
			if pt := types.NewPointer(t); kindOf(t) != reflect.Ptr && e.marshaler(pt, addr) {
				return
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if x.decide(s, v.(*Term)) {
				e.lit("true")
			} else {
				e.lit("false")
			}
		case u.Info()&types.IsInteger != 0:
			tt := v.(*Term)
			e.out = append(e.out, x.decimal(s, tt, isSigned(t))...)
		case u.Info()&types.IsString != 0:
			e.str(v.(*Str))
		case u.Info()&types.IsFloat != 0:
			b, err := json.Marshal(v.(float64))
			if err != nil {
				panic(jsonErr{x.newError(s, cstr(err.Error()))})
			}
			e.lit(string(b))
		default:
			panic(unsupported{"json of " + t.String()})
		}
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			e.lit("null")
			return
		}
		e.value(i.t, i.v, nil)
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported{"json of symbolic pointer"})
		}
		if p.obj == 0 {
			e.lit("null")
			return
		}
		e.value(u.Elem(), x.load(s, p, u.Elem()), p)
	case *types.Slice:
		sl := v.(Slice)
		if sl.obj == 0 {
			e.lit("null")
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			e.lit(`"` + base64.StdEncoding.EncodeToString([]byte(x.concStr(s, mkStr(x.sliceBytes(s, sl))))) + `"`)
			return
		}
		e.lit("[")
		n := ncells(u.Elem())
		for i := 0; i < sl.len; i++ {
			if i > 0 {
				e.lit(",")
			}
			p := Ptr{sl.obj, sl.off + i*n}
			e.value(u.Elem(), x.load(s, p, u.Elem()), p)
		}
		e.lit("]")
	case *types.Array:
		e.lit("[")
		n := ncells(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			if i > 0 {
				e.lit(",")
			}
			e.value(u.Elem(), fromCells(u.Elem(), v.(Agg)[i*n:(i+1)*n]), nil)
		}
		e.lit("]")
	case *types.Map:
		m := v.(MapRef)
		if m.obj == 0 {
			e.lit("null")
			return
		}
		ents := append([]MapEntry(nil), x.getObj(s, m.obj).m.ents...)
		if !isString(u.Key()) {
			panic(unsupported{"json of a map with non-string keys"})
		}
		// insertion sort with decisions on symbolic keys
		for i := 1; i < len(ents); i++ {
			for j := i; j > 0; j-- {
				if !x.decide(s, strLess(ents[j].k.(*Str), ents[j-1].k.(*Str), false)) {
					break
				}
				ents[j], ents[j-1] = ents[j-1], ents[j]
			}
		}
		e.lit("{")
		for i, en := range ents {
			if i > 0 {
				e.lit(",")
			}
			e.str(en.k.(*Str))
			e.lit(":")
			e.value(u.Elem(), en.v, nil)
		}
		e.lit("}")
	case *types.Struct:
		e.lit("{")
		first := true
	fields:
		for _, f := range jsonFields(t) {
			ct, cv, ca := t, v, addr
			for k, idx := range f.path {
				if p, ok := ct.Underlying().(*types.Pointer); ok && k > 0 {
					q := cv.(Ptr)
					if q.obj == 0 {
						continue fields
					}
					ct = p.Elem()
					cv = x.load(s, q, ct)
					ca = q
				}
				ft := ct.Underlying().(*types.Struct).Field(idx).Type()
				off := layout(ct).offs[idx]
				cv = fromCells(ft, cv.(Agg)[off:off+ncells(ft)])
				if p, ok := ca.(Ptr); ok {
					ca = Ptr{p.obj, p.off + off}
				}
				ct = ft
			}
			if f.omitEmpty && e.empty(ct, cv) {
				continue
			}
			if f.asString {
				panic(unsupported{"json ,string option"})
			}
			if !first {
				e.lit(",")
			}
			first = false
			e.str(cstr(f.name))
			e.lit(":")
			e.value(ct, cv, ca)
		}
		e.lit("}")
	default:
		panic(jsonErr{x.newError(s, cstr("json: unsupported type: "+typeString(t)))})
	}
}

func (e *jsonEnc) empty(t types.Type, v Value) bool {
	switch t.Underlying().(type) {
	case *types.Struct:
		return false
	case *types.Array:
		return len(v.(Agg)) == 0
	case *types.Slice, *types.Map:
		return e.x.valueLen(e.s, t, v) == 0
	}
	return e.x.decide(e.s, e.x.rIsZero(e.s, t, v))
}

func (x *X) jsonBytes(s *State, v Iface, html bool) (out []*Term, err Iface) {
	e := &jsonEnc{x: x, s: s, html: html}
	defer func() {
		if r := recover(); r != nil {
			je, ok := r.(jsonErr)
			if !ok {
				panic(r)
			}
			out, err = nil, je.err
		}
	}()
	if v.t == nil {
		e.lit("null")
	} else {
		e.value(v.t, v.v, nil)
	}
	return e.out, Iface{}
}

// like json.Indent on valid compact input
func (x *X) jsonIndent(s *State, b []*Term, prefix, indent string) []*Term {
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, byteConst[s[i]])
		}
	}
	depth := 0
	nl := func() {
		lit("\n" + prefix + strings.Repeat(indent, depth))
	}
	inStr, esc, need := false, false, false
	for _, t := range b {
		t = s.simp(t)
		is := func(c byte) bool {
			if t.isConst() {
				return byte(t.val) == c
			}
			return x.decide(s, Eq(t, byteConst[c]))
		}
		if inStr {
			if esc {
				esc = false
			} else if is('\\') {
				esc = true
			} else if is('"') {
				inStr = false
			}
			out = append(out, t)
			continue
		}
		if need && !is(']') && !is('}') {
			need = false
			depth++
			nl()
		}
		switch {
		case !t.isConst():
			out = append(out, t)
		case t.val == '"':
			inStr = true
			out = append(out, t)
		case t.val == '{' || t.val == '[':
			need = true
			out = append(out, t)
		case t.val == ',':
			out = append(out, t)
			nl()
		case t.val == ':':
			out = append(out, t)
			lit(" ")
		case t.val == '}' || t.val == ']':
			if need {
				need = false
			} else {
				depth--
				nl()
			}
			out = append(out, t)
		default:
			out = append(out, t)
		}
	}
	return out
}

func initJSON() {
	I := intrinsics
	I["encoding/json.Marshal"] = func(x *X, s *State, a []Value) Value {
		b, err := x.jsonBytes(s, a[0].(Iface), true)
		if err.t != nil {
			return Tuple{Slice{}, err}
		}
		return Tuple{x.newBytes(s, b), Iface{}}
	}
	I["encoding/json.MarshalIndent"] = func(x *X, s *State, a []Value) Value {
		b, err := x.jsonBytes(s, a[0].(Iface), true)
		if err.t != nil {
			return Tuple{Slice{}, err}
		}
		b = x.jsonIndent(s, b, x.concStr(s, str(a[1])), x.concStr(s, str(a[2])))
		return Tuple{x.newBytes(s, b), Iface{}}
	}
	I["(*encoding/json.Encoder).Encode"] = func(x *X, s *State, a []Value) Value {
		p := a[0].(Ptr)
		et := x.lookupType("encoding/json", "Encoder")
		st := et.Underlying().(*types.Struct)
		o := x.getObj(s, p.obj)
		var w Iface
		html, prefix, indent := true, "", ""
		for i := 0; i < st.NumFields(); i++ {
			c := o.cells[p.off+layout(et).offs[i]]
			switch st.Field(i).Name() {
			case "w":
				w = c.(Iface)
			case "err":
				if c.(Iface).t != nil {
					return c
				}
			case "escapeHTML":
				html = x.decide(s, c.(*Term))
			case "opts":
				if v, ok := c.(Iface); ok && v.t == types.Typ[types.Bool] {
					html = x.decide(s, v.v.(*Term))
				}
			case "indentPrefix":
				prefix = x.concStr(s, c.(*Str))
			case "indentValue":
				indent = x.concStr(s, c.(*Str))
			}
		}
		b, err := x.jsonBytes(s, a[1].(Iface), html)
		if err.t != nil {
			return err
		}
		if prefix != "" || indent != "" {
			b = x.jsonIndent(s, b, prefix, indent)
		}
		b = append(b, byteConst['\n'])
		r := x.writeTo(s, w, mkStr(b)).(Tuple)
		return r[1]
	}
	I["(*encoding/json.Encoder).SetEscapeHTML"] = func(x *X, s *State, a []Value) Value {
		p := a[0].(Ptr)
		et := x.lookupType("encoding/json", "Encoder")
		st := et.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			off := p.off + layout(et).offs[i]
			switch st.Field(i).Name() {
			case "escapeHTML":
				x.wObj(s, p.obj).cells[off] = a[1]
			case "opts":
				x.wObj(s, p.obj).cells[off] = Iface{types.Typ[types.Bool], a[1]}
			}
		}
		return Tuple{}
	}
	I["encoding/json.NewEncoder"] = func(x *X, s *State, a []Value) Value {
		et := x.lookupType("encoding/json", "Encoder")
		id := x.alloc(s, et, 1)
		st := et.Underlying().(*types.Struct)
		o := x.wObj(s, id)
		for i := 0; i < st.NumFields(); i++ {
			off := layout(et).offs[i]
			switch st.Field(i).Name() {
			case "w":
				o.cells[off] = a[0]
			case "escapeHTML":
				o.cells[off] = tTrue
			}
		}
		return Ptr{id, 0}
	}
	I["encoding/json.Unmarshal"] = func(x *X, s *State, a []Value) Value {
		to := a[1].(Iface)
		p, ok := to.v.(Ptr)
		if !ok || to.t == nil {
			panic(unsupported{"encoding/json.Unmarshal: target"})
		}
		pt, ok := to.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported{"encoding/json.Unmarshal: target"})
		}
		if i, ok := pt.Elem().Underlying().(*types.Interface); !ok || i.NumMethods() != 0 {
			panic(unsupported{"encoding/json.Unmarshal into " + pt.Elem().String()})
		}
		data, ok := mkStr(x.sliceBytes(s, a[0].(Slice))).Concrete()
		if !ok {
			panic(unsupported{"encoding/json.Unmarshal of symbolic data"})
		}
		if x.getObj(s, p.obj).cells[p.off].(Iface).t != nil {
			panic(unsupported{"encoding/json.Unmarshal into a value"})
		}
		var v interface{}
		if err := json.Unmarshal([]byte(data), &v); err != nil {
			return x.newError(s, cstr(err.Error()))
		}
		x.wObj(s, p.obj).cells[p.off] = x.fromJSON(s, v)
		return Iface{}
	}
	for _, n := range []string{"(*encoding/json.Decoder).Decode"} {
		n := n
		I[n] = func(x *X, s *State, a []Value) Value { panic(unsupported{n}) }
	}
}

// fromJSON converts a decoded document to a value of type interface{}.
func (x *X) fromJSON(s *State, v interface{}) Iface {
	empty := types.NewInterfaceType(nil, nil)
	switch v := v.(type) {
	case bool:
		return Iface{types.Typ[types.Bool], BoolT(v)}
	case float64:
		return Iface{types.Typ[types.Float64], v}
	case string:
		return Iface{types.Typ[types.String], cstr(v)}
	case []interface{}:
		id := x.alloc(s, empty, len(v))
		for i, e := range v {
			e := x.fromJSON(s, e)
			x.wObj(s, id).cells[i] = e
		}
		return Iface{canon(types.NewSlice(empty)), Slice{id, 0, len(v), len(v)}}
	case map[string]interface{}:
		t := canon(types.NewMap(types.Typ[types.String], empty))
		m := x.newMap(s, t)
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			x.mapSet(s, m, cstr(k), x.fromJSON(s, v[k]))
		}
		return Iface{t, m}
	}
	return Iface{}
}
