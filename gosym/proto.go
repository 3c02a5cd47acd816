package main

// Protobuf wire codec over symbolic values, driven by the generated structs' tags.

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type pfield struct {
	num    int
	kind   string // varint, fixed32, fixed64, bytes, zigzag32, zigzag64, group
	label  string // opt, req, rep
	packed bool
	proto3 bool
	idx    int
	ft     types.Type
	oneof  *types.Named // wrapper type when member of a oneof
	name   string
	isMap  bool
}

type pmsg struct {
	st      *types.Struct
	fields  []*pfield
	byNum   map[int]*pfield
	unknown int
}

func (ex *Exec) pmsgOf(t types.Type) *pmsg {
	key := t.String()
	e := ex.w.eng
	engMu.Lock()
	defer engMu.Unlock()
	if m, ok := e.pmsgs[key]; ok {
		return m
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		ex.unsupported("proto: %v is not a struct", t)
	}
	m := &pmsg{st: st, byNum: map[int]*pfield{}, unknown: -1}
	parse := func(tag string, f *pfield) {
		for i, p := range strings.Split(tag, ",") {
			switch {
			case i == 0:
				f.kind = p
			case i == 1:
				f.num, _ = strconv.Atoi(p)
			case i == 2:
				f.label = p
			case p == "packed":
				f.packed = true
			case p == "proto3":
				f.proto3 = true
			case strings.HasPrefix(p, "name="):
				f.name = p[5:]
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i))
		if st.Field(i).Name() == "unknownFields" || st.Field(i).Name() == "XXX_unrecognized" {
			m.unknown = i
		}
		if o := tag.Get("protobuf_oneof"); o != "" {
			it := st.Field(i).Type().Underlying().(*types.Interface)
			scope := st.Field(i).Pkg().Scope()
			for _, n := range scope.Names() {
				tn, ok := scope.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				nt, ok := tn.Type().(*types.Named)
				if !ok {
					continue
				}
				ws, ok := nt.Underlying().(*types.Struct)
				if !ok || ws.NumFields() != 1 || !types.Implements(types.NewPointer(nt), it) {
					continue
				}
				f := &pfield{idx: i, oneof: nt, ft: ws.Field(0).Type()}
				parse(reflect.StructTag(ws.Tag(0)).Get("protobuf"), f)
				m.fields = append(m.fields, f)
				m.byNum[f.num] = f
			}
			continue
		}
		pt := tag.Get("protobuf")
		if pt == "" {
			continue
		}
		f := &pfield{idx: i, ft: st.Field(i).Type()}
		parse(pt, f)
		if _, ok := f.ft.Underlying().(*types.Map); ok {
			f.isMap = true
		}
		m.fields = append(m.fields, f)
		m.byNum[f.num] = f
	}
	sort.SliceStable(m.fields, func(i, j int) bool { return m.fields[i].num < m.fields[j].num })
	e.pmsgs[key] = m
	return m
}

func (ex *Exec) putVarint(out []*Term, v *Term) []*Term {
	c := ex.c
	v = c.Zext(v, 64)
	for i := 0; ; i++ {
		if i == 9 {
			return append(out, c.Extract(v, 7, 0))
		}
		if ex.branch(c.Cmp(OpUlt, v, c.Const(0x80, 64))) {
			return append(out, c.Extract(v, 7, 0))
		}
		out = append(out, c.Concat(c.Const(1, 1), c.Extract(v, 6, 0)))
		v = c.bin(OpLshr, v, c.Const(7, 64))
	}
}

func (ex *Exec) constVarint(out []*Term, v uint64) []*Term {
	return ex.putVarint(out, ex.c.Const(v, 64))
}

type protoErr struct{ msg string }

// encode one scalar/message value (without tag)
func (ex *Exec) pEncVal(f *pfield, t types.Type, v Value) (wt int, b []*Term) {
	c := ex.c
	switch f.kind {
	case "varint":
		x := v.(*Term)
		if x.w == 0 {
			return 0, []*Term{c.Ite(x, c.Const(1, 8), c.Const(0, 8))}
		}
		bt := t.Underlying().(*types.Basic)
		if _, s := bitWidth(bt); s {
			x = c.Sext(x, 64)
		}
		return 0, ex.putVarint(nil, x)
	case "fixed32", "fixed64":
		x, ok := v.(*Term)
		if !ok {
			ex.unsupported("proto float")
		}
		var out []*Term
		for i := uint8(0); i < x.w; i += 8 {
			out = append(out, c.Extract(x, i+7, i))
		}
		if f.kind == "fixed32" {
			return 5, out
		}
		return 1, out
	case "bytes":
		var body []*Term
		switch x := v.(type) {
		case Str:
			body = ex.strBytes(x)
			if f.proto3 {
				ex.checkUTF8(x)
			}
		case Slice:
			body = terms(x)
		case *Value:
			if x == nil {
				body = nil
			} else {
				body = ex.pMarshal(deref(t), *x)
			}
		default:
			ex.unsupported("proto bytes %T", v)
		}
		return 2, append(ex.constVarint(nil, uint64(len(body))), body...)
	}
	ex.unsupported("proto kind %s", f.kind)
	return
}

func (ex *Exec) checkUTF8(s Str) {
	ex.checkUTF8err(s, "string field contains invalid UTF-8")
}
func (ex *Exec) checkUTF8err(s Str, msg string) {
	f := ex.p.pkgs["unicode/utf8"].Func("ValidString")
	save := ex.curFr
	r := ex.callFn(f, []Value{s}, nil).(*Term)
	ex.curFr = save
	if !ex.branch(r) {
		panic(&protoErr{msg})
	}
}

func (ex *Exec) pMarshal(t types.Type, v Value) []*Term {
	m := ex.pmsgOf(t)
	sv := v.(Struct)
	var out []*Term
	emit := func(f *pfield, ft types.Type, x Value) {
		wt, b := ex.pEncVal(f, ft, x)
		out = ex.constVarint(out, uint64(f.num<<3|wt))
		out = append(out, b...)
	}
	for _, f := range m.fields {
		x := sv[f.idx]
		if f.oneof != nil {
			iv := x.(Iface)
			if iv.t == nil {
				continue
			}
			if deref(iv.t) == types.Type(f.oneof) || types.Identical(deref(iv.t), f.oneof) {
				p := iv.v.(*Value)
				if p == nil {
					continue
				}
				emit(f, f.ft, (*p).(Struct)[0])
			}
			continue
		}
		if f.isMap {
			if mp := x.(*Map); mp != nil && mp.n > 0 {
				ex.unsupported("proto map field")
			}
			continue
		}
		if f.label == "rep" {
			sl := x.(Slice)
			et := f.ft.Underlying().(*types.Slice).Elem()
			if f.packed && len(sl) > 0 {
				var body []*Term
				for _, e := range sl {
					_, b := ex.pEncVal(f, et, e)
					body = append(body, b...)
				}
				out = ex.constVarint(out, uint64(f.num<<3|2))
				out = ex.constVarint(out, uint64(len(body)))
				out = append(out, body...)
				continue
			}
			for _, e := range sl {
				emit(f, et, e)
			}
			continue
		}
		switch ft := f.ft.Underlying().(type) {
		case *types.Pointer:
			p, _ := x.(*Value)
			if p == nil {
				if f.label == "req" {
					panic(&protoErr{"required field " + f.name + " not set"})
				}
				continue
			}
			if _, isS := ft.Elem().Underlying().(*types.Struct); isS {
				emit(f, f.ft, p)
			} else {
				emit(f, ft.Elem(), *p)
			}
		case *types.Slice:
			s := x.(Slice)
			if s == nil || (f.proto3 && len(s) == 0) {
				if f.label == "req" {
					panic(&protoErr{"required field " + f.name + " not set"})
				}
				continue
			}
			emit(f, f.ft, s)
		default: // proto3 scalar: omitted when zero
			switch y := x.(type) {
			case *Term:
				z := y
				if y.w == 0 {
					if !ex.branch(y) {
						continue
					}
				} else if ex.branch(ex.c.Eq(z, ex.c.Const(0, z.w))) {
					continue
				}
			case Str:
				if y.Len() == 0 {
					continue
				}
			}
			emit(f, f.ft, x)
		}
	}
	if m.unknown >= 0 {
		out = append(out, terms(sv[m.unknown].(Slice))...)
	}
	return out
}

type preader struct {
	b []*Term
	i int
}

func (ex *Exec) getVarint(r *preader) *Term {
	c := ex.c
	v := c.Const(0, 64)
	for n := 0; ; n++ {
		if r.i >= len(r.b) {
			panic(&protoErr{"unexpected EOF"})
		}
		x := r.b[r.i]
		r.i++
		if n == 9 {
			// 10th byte: at most 1
			if !ex.branch(c.Cmp(OpUlt, x, c.Const(2, 8))) {
				panic(&protoErr{"integer overflow"})
			}
			return c.bin(OpBOr, v, c.bin(OpShl, c.Zext(x, 64), c.Const(63, 64)))
		}
		lo := c.Zext(c.Extract(x, 6, 0), 64)
		v = c.bin(OpBOr, v, c.bin(OpShl, lo, c.Const(uint64(7*n), 64)))
		if ex.branch(c.Cmp(OpUlt, x, c.Const(0x80, 8))) {
			return v
		}
	}
}

func (ex *Exec) getLen(r *preader) int {
	n := ex.getVarint(r)
	rem := len(r.b) - r.i
	if !ex.branch(ex.c.Cmp(OpUle, n, ex.c.Const(uint64(rem), 64))) {
		panic(&protoErr{"unexpected EOF"})
	}
	return int(ex.concretize(n))
}

func (ex *Exec) fixedN(r *preader, n int) *Term {
	if len(r.b)-r.i < n {
		panic(&protoErr{"unexpected EOF"})
	}
	var xs []*Term
	for k := n - 1; k >= 0; k-- {
		xs = append(xs, r.b[r.i+k])
	}
	r.i += n
	return ex.c.Concat(xs...)
}

func wireOf(kind string) int {
	switch kind {
	case "varint", "zigzag32", "zigzag64":
		return 0
	case "fixed64":
		return 1
	case "fixed32":
		return 5
	}
	return 2
}

// decode one value of type t (element type)
func (ex *Exec) pDecVal(f *pfield, t types.Type, r *preader, old Value) Value {
	c := ex.c
	switch f.kind {
	case "varint":
		v := ex.getVarint(r)
		w, _ := bitWidth(t.Underlying().(*types.Basic))
		if w == 0 {
			return c.Not(c.Eq(v, c.Const(0, 64)))
		}
		if w == 64 {
			return v
		}
		return c.Extract(v, w-1, 0)
	case "fixed32":
		return ex.fixedN(r, 4)
	case "fixed64":
		return ex.fixedN(r, 8)
	case "bytes":
		n := ex.getLen(r)
		body := r.b[r.i : r.i+n]
		r.i += n
		switch tt := t.Underlying().(type) {
		case *types.Basic:
			s := mkStr(append([]*Term(nil), body...))
			if f.proto3 {
				ex.checkUTF8(s)
			}
			return s
		case *types.Slice:
			return append(Slice{}, fromTerms(body)...)
		case *types.Pointer:
			p, _ := old.(*Value)
			if p == nil {
				p = new(Value)
				*p = ex.zero(tt.Elem())
			}
			ex.pUnmarshal(tt.Elem(), p, body)
			return p
		}
	}
	ex.unsupported("proto decode %s %v", f.kind, t)
	return nil
}

func (ex *Exec) pUnmarshal(t types.Type, p *Value, b []*Term) {
	m := ex.pmsgOf(t)
	sv := (*p).(Struct)
	c := ex.c
	r := &preader{b: b}
	seen := map[int]bool{}
	for r.i < len(b) {
		start := r.i
		tag := ex.getVarint(r)
		var f *pfield
		wt := -1
		if tag.isConst() {
			f = m.byNum[int(tag.val>>3)]
			wt = int(tag.val & 7)
			if tag.val>>3 == 0 || tag.val>>3 > 1<<29-1 {
				panic(&protoErr{"invalid field number"})
			}
			if f != nil && wt != wireOf(f.kind) && !(f.label == "rep" && wt == 2) {
				f = nil
			}
		} else {
			for _, g := range m.fields {
				if ex.branch(c.Eq(tag, c.Const(uint64(g.num<<3|wireOf(g.kind)), 64))) {
					f, wt = g, wireOf(g.kind)
					break
				}
				if g.label == "rep" && wireOf(g.kind) != 2 {
					if ex.branch(c.Eq(tag, c.Const(uint64(g.num<<3|2), 64))) {
						f, wt = g, 2
						break
					}
				}
			}
			if f == nil {
				num := c.bin(OpLshr, tag, c.Const(3, 64))
				if ex.branch(c.Or(c.Eq(num, c.Const(0, 64)), c.Cmp(OpUlt, c.Const(1<<29-1, 64), num))) {
					panic(&protoErr{"invalid field number"})
				}
				wt = int(ex.concretize(c.Extract(tag, 2, 0)))
			}
		}
		if f == nil {
			switch wt {
			case 0:
				ex.getVarint(r)
			case 1:
				ex.fixedN(r, 8)
			case 2:
				n := ex.getLen(r)
				r.i += n
			case 5:
				ex.fixedN(r, 4)
			case 3:
				// group: treat as malformed unless properly closed; bounded model: error
				panic(&protoErr{"group"})
			default:
				panic(&protoErr{"invalid wire type"})
			}
			if m.unknown >= 0 {
				u := sv[m.unknown].(Slice)
				sv[m.unknown] = append(append(Slice{}, u...), fromTerms(b[start:r.i])...)
			}
			continue
		}
		seen[f.num] = true
		if f.isMap {
			ex.unsupported("proto map field decode")
		}
		if f.oneof != nil {
			w := new(Value)
			*w = ex.zero(f.oneof)
			var old Value
			if iv := sv[f.idx].(Iface); iv.t != nil && types.Identical(deref(iv.t), f.oneof) {
				old = (*(iv.v.(*Value))).(Struct)[0]
			}
			(*w).(Struct)[0] = ex.pDecVal(f, f.ft, r, old)
			sv[f.idx] = Iface{types.NewPointer(f.oneof), w}
			continue
		}
		if f.label == "rep" {
			et := f.ft.Underlying().(*types.Slice).Elem()
			if wt == 2 && wireOf(f.kind) != 2 {
				n := ex.getLen(r)
				sub := &preader{b: r.b[:r.i+n], i: r.i}
				r.i += n
				for sub.i < len(sub.b) {
					sv[f.idx] = append(sv[f.idx].(Slice), ex.pDecVal(f, et, sub, nil))
				}
				continue
			}
			sv[f.idx] = append(sv[f.idx].(Slice), ex.pDecVal(f, et, r, nil))
			continue
		}
		if pt, ok := f.ft.Underlying().(*types.Pointer); ok {
			if _, isS := pt.Elem().Underlying().(*types.Struct); isS {
				sv[f.idx] = ex.pDecVal(f, f.ft, r, sv[f.idx])
			} else {
				v := new(Value)
				*v = ex.pDecVal(f, pt.Elem(), r, nil)
				sv[f.idx] = v
			}
			continue
		}
		sv[f.idx] = ex.pDecVal(f, f.ft, r, nil)
	}
	for _, f := range m.fields {
		if f.label == "req" && !seen[f.num] {
			x := sv[f.idx]
			if q, ok := x.(*Value); ok && q != nil {
				continue
			}
			if q, ok := x.(Slice); ok && q != nil {
				continue
			}
			panic(&protoErr{"required field " + f.name + " not set"})
		}
	}
}

func (ex *Exec) catchProto(f func()) (err string, failed bool) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(*protoErr); ok {
				err, failed = pe.msg, true
				return
			}
			panic(r)
		}
	}()
	f()
	return
}

func protoMarshal(ex *Exec, a []Value) Value {
	iv := a[0].(Iface)
	if iv.t == nil {
		// nil message: golang/protobuf returns ErrNil, protobuf-go returns nil
		return Tuple{Slice(nil), ex.mkError("proto: Marshal called with nil")}
	}
	p, _ := iv.v.(*Value)
	if p == nil {
		return Tuple{Slice(nil), ex.mkError("proto: Marshal called with nil")}
	}
	var out []*Term
	fr := ex.curFr
	d := ex.depth
	if e, bad := ex.catchProto(func() { out = ex.pMarshal(deref(iv.t), *p) }); bad {
		ex.curFr, ex.depth = fr, d
		return Tuple{Slice(nil), ex.mkError("proto: " + e)}
	}
	s := fromTerms(out)
	if s == nil {
		s = Slice{}
	}
	return Tuple{s, Iface{}}
}

func protoUnmarshal(ex *Exec, a []Value) Value {
	b := terms(a[0].(Slice))
	iv := a[1].(Iface)
	if iv.t == nil {
		ex.nilDeref()
	}
	p, _ := iv.v.(*Value)
	if p == nil {
		ex.nilDeref()
	}
	t := deref(iv.t)
	*p = ex.zero(t) // Reset
	fr := ex.curFr
	d := ex.depth
	if e, bad := ex.catchProto(func() { ex.pUnmarshal(t, p, b) }); bad {
		ex.curFr, ex.depth = fr, d
		return ex.mkError("proto: " + e)
	}
	return Iface{}
}

var _ = fmt.Sprint
