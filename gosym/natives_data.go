package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// ---- JSON / YAML by snapshot: marshalling yields a unique marker that stands for the encoded tree ----

type jkind int

const (
	jNull jkind = iota
	jBool
	jNum
	jStr
	jBytes
	jArr
	jObj
)

type jval struct {
	k      jkind
	t      *Term
	signed bool
	f      float64
	isF    bool
	s      Str
	arr    []*jval
	keys   []Str
}

type jsonSnap struct {
	marker string
	v      *jval
}

type jfield struct {
	name      string
	idx       int
	omitempty bool
	asString  bool
	embedded  bool
	ft        types.Type
}

func jfields(st *types.Struct, kind string) []jfield {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get(kind)
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		jf := jfield{name: parts[0], idx: i, ft: f.Type()}
		for _, p := range parts[1:] {
			switch p {
			case "omitempty":
				jf.omitempty = true
			case "string":
				jf.asString = true
			case "inline":
				jf.embedded = true
			}
		}
		if !f.Exported() && !f.Embedded() {
			continue
		}
		if kind == "json" && f.Embedded() && jf.name == "" {
			jf.embedded = true
		}
		if jf.name == "" {
			jf.name = f.Name()
			if kind == "yaml" {
				jf.name = strings.ToLower(f.Name())
			}
		}
		out = append(out, jf)
	}
	return out
}

func (ex *Exec) jIsEmpty(v Value) bool {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return !ex.branch(v)
		}
		return ex.branch(ex.c.Eq(v, ex.c.Const(0, v.w)))
	case Str:
		return v.Len() == 0
	case Slice:
		return len(v) == 0
	case *Map:
		return v == nil || v.n == 0
	case *Value:
		return v == nil
	case Iface:
		return v.t == nil
	case Float:
		return v == 0
	}
	return false
}

func (ex *Exec) jEnc(t types.Type, v Value, kind string, depth int) *jval {
	if depth > 20 {
		ex.unsupported("json depth")
	}
	if iv, ok := v.(Iface); ok {
		if iv.t == nil {
			return &jval{k: jNull}
		}
		return ex.jEnc(iv.t, iv.v, kind, depth+1)
	}
	mname := "MarshalJSON"
	if kind == "yaml" {
		mname = "MarshalYAML"
	}
	if ex.hasMethod(t, mname) {
		if p, isP := v.(*Value); !isP || p != nil {
			r := ex.invoke(Iface{t, v}, mname).(Tuple)
			if kind == "yaml" {
				return ex.jEnc(types.NewInterfaceType(nil, nil), r[0], kind, depth+1)
			}
			jv, err := ex.jParse(bs(r[0]))
			if err != "" {
				ex.unsupported("MarshalJSON output: %s", err)
			}
			return jv
		}
	}
	if ex.hasMethod(t, "MarshalText") && kind == "json" {
		if p, isP := v.(*Value); !isP || p != nil {
			r := ex.invoke(Iface{t, v}, "MarshalText").(Tuple)
			return &jval{k: jStr, s: mkStr(bs(r[0]))}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if x.w == 0 {
				return &jval{k: jBool, t: x}
			}
			_, s := bitWidth(u)
			return &jval{k: jNum, t: x, signed: s}
		case Str:
			return &jval{k: jStr, s: x}
		case Float:
			return &jval{k: jNum, f: float64(x), isF: true}
		}
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok {
			ex.unsupported("json of native pointer")
		}
		if p == nil {
			return &jval{k: jNull}
		}
		return ex.jEnc(u.Elem(), *p, kind, depth+1)
	case *types.Slice:
		s := v.(Slice)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && kind == "json" {
			if s == nil {
				return &jval{k: jNull}
			}
			return &jval{k: jBytes, s: mkStr(terms(s))}
		}
		if s == nil && kind == "json" {
			return &jval{k: jNull}
		}
		r := &jval{k: jArr}
		for _, x := range s {
			r.arr = append(r.arr, ex.jEnc(u.Elem(), x, kind, depth+1))
		}
		return r
	case *types.Array:
		r := &jval{k: jArr}
		for _, x := range v.(Array) {
			r.arr = append(r.arr, ex.jEnc(u.Elem(), x, kind, depth+1))
		}
		return r
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			return &jval{k: jNull}
		}
		r := &jval{k: jObj}
		for _, e := range m.entries {
			if e.deleted {
				continue
			}
			ks, ok := e.k.(Str)
			if !ok {
				ks = ex.fmtValue('v', "", u.Key(), e.k, 0)
			}
			r.keys = append(r.keys, ks)
			r.arr = append(r.arr, ex.jEnc(u.Elem(), e.v, kind, depth+1))
		}
		return r
	case *types.Struct:
		r := &jval{k: jObj}
		sv := v.(Struct)
		for _, f := range jfields(u, kind) {
			if f.omitempty && ex.jIsEmpty(sv[f.idx]) {
				continue
			}
			e := ex.jEnc(f.ft, sv[f.idx], kind, depth+1)
			if f.embedded && e.k == jObj {
				r.keys = append(r.keys, e.keys...)
				r.arr = append(r.arr, e.arr...)
				continue
			}
			if f.embedded && e.k == jNull {
				continue
			}
			if f.asString && e.k == jNum {
				e = &jval{k: jStr, s: ex.fmtInt(e.t, e.signed, 10)}
			}
			r.keys = append(r.keys, str(f.name))
			r.arr = append(r.arr, e)
		}
		return r
	}
	ex.unsupported("json encode %v", t)
	return nil
}

// size estimates the length of the text of v.
func (v *jval) size() int {
	if v == nil {
		return 0
	}
	n := 2
	if v.k == jStr {
		n += v.s.Len()
	}
	for _, k := range v.keys {
		n += 3 + k.Len()
	}
	for _, e := range v.arr {
		n += e.size()
	}
	if n > 2000 {
		n = 2000
	}
	return n
}

func (ex *Exec) jMarker(v *jval) []*Term {
	// about as long as the text would be
	m := fmt.Sprintf("\"vf#snap%06d%s\"", len(ex.jsonTab), strings.Repeat("#", v.size()))
	ex.jsonTab = append(ex.jsonTab, jsonSnap{m, v})
	return terms(ex.bytesVal([]byte(m)))
}

func (ex *Exec) jParse(b []*Term) (*jval, string) {
	if !allConst(b) {
		// maybe surrounded by newline
		ex.unsupported("JSON decoding of symbolic bytes")
	}
	raw := bytes.TrimSpace(constBytes(b))
	for _, s := range ex.jsonTab {
		if string(raw) == s.marker {
			return s.v, ""
		}
	}
	if bytes.Contains(raw, []byte("vf#snap")) {
		return nil, "invalid character"
	}
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		return nil, err.Error()
	}
	if d.More() {
		return nil, "invalid character after top-level value"
	}
	return ex.jFromGo(x), ""
}

func (ex *Exec) jFromGo(x any) *jval {
	switch x := x.(type) {
	case nil:
		return &jval{k: jNull}
	case bool:
		return &jval{k: jBool, t: ex.c.Bool(x)}
	case string:
		return &jval{k: jStr, s: str(x)}
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return &jval{k: jNum, t: ex.c.Const(uint64(i), 64), signed: true}
		}
		if u, err := strconv.ParseUint(string(x), 10, 64); err == nil {
			return &jval{k: jNum, t: ex.c.Const(u, 64)}
		}
		f, _ := x.Float64()
		return &jval{k: jNum, f: f, isF: true}
	case []any:
		r := &jval{k: jArr}
		for _, e := range x {
			r.arr = append(r.arr, ex.jFromGo(e))
		}
		return r
	case map[string]any:
		r := &jval{k: jObj}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r.keys = append(r.keys, str(k))
			r.arr = append(r.arr, ex.jFromGo(x[k]))
		}
		return r
	}
	panic("jFromGo")
}

type jErr struct{ msg string }

func (ex *Exec) jDec(t types.Type, p *Value, j *jval, kind string) {
	bad := func() {
		panic(&jErr{"json: cannot unmarshal value into Go value of type " + t.String()})
	}
	mname := "UnmarshalJSON"
	if kind == "yaml" {
		mname = "UnmarshalYAML"
	}
	if _, isP := t.Underlying().(*types.Pointer); !isP && ex.hasMethod(types.NewPointer(t), mname) && j.k != jNull {
		ex.unsupported("custom %s", mname)
	}
	if kind == "json" && ex.hasMethod(types.NewPointer(t), "UnmarshalText") {
		if _, isP := t.Underlying().(*types.Pointer); !isP && j.k == jStr {
			r := ex.invoke(Iface{types.NewPointer(t), p}, "UnmarshalText", fromTerms(ex.strBytes(j.s))).(Iface)
			if r.t != nil {
				panic(&jErr{"json: text"})
			}
			return
		}
	}
	if j.k == jNull {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			*p = ex.zero(t)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if q := (*p).(*Value); q != nil {
			ex.jDec(u.Elem(), q, j, kind)
			return
		}
		q := new(Value)
		*q = ex.zero(u.Elem())
		ex.jDec(u.Elem(), q, j, kind)
		*p = q
	case *types.Interface:
		*p = ex.jAny(j, kind)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch j.k {
			case jStr:
				*p = j.s
			case jBytes:
				*p = ex.b64(j.s)
			default:
				if kind == "yaml" && j.k == jNum && !j.isF {
					*p = ex.fmtInt(j.t, j.signed, 10)
					return
				}
				bad()
			}
		case u.Info()&types.IsBoolean != 0:
			if j.k != jBool {
				bad()
			}
			*p = j.t
		case u.Info()&types.IsInteger != 0:
			if j.k != jNum {
				bad()
			}
			w, signed := bitWidth(u)
			if j.isF {
				if j.f != math.Trunc(j.f) {
					bad()
				}
				*p = ex.c.Const(uint64(int64(j.f)), w)
				return
			}
			x := j.t
			// range check in 65 bits is approximated by 64-bit extension rules
			var wide *Term
			if j.signed {
				wide = ex.c.Sext(x, 64)
				if !signed && ex.branch(ex.c.Cmp(OpSlt, wide, ex.c.Const(0, 64))) {
					bad()
				}
			} else {
				wide = ex.c.Zext(x, 64)
				if signed && ex.branch(ex.c.Cmp(OpSlt, wide, ex.c.Const(0, 64))) {
					bad()
				}
			}
			if w < 64 {
				lo := ex.c.Extract(wide, w-1, 0)
				back := ex.c.Zext(lo, 64)
				if signed {
					back = ex.c.Sext(lo, 64)
				}
				if !ex.branch(ex.c.Eq(back, wide)) {
					bad()
				}
				*p = lo
			} else {
				*p = wide
			}
		case u.Info()&types.IsFloat != 0:
			if j.k != jNum {
				bad()
			}
			if j.isF {
				*p = Float(j.f)
			} else {
				*p = Float(float64(int64(ex.concretize(j.t))))
			}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && kind == "json" {
			switch j.k {
			case jBytes:
				*p = fromTerms(ex.strBytes(j.s))
				return
			case jStr:
				r := ex.b64dec(j.s)
				if r == nil {
					panic(&jErr{"illegal base64 data"})
				}
				*p = Slice(r)
				return
			}
		}
		if j.k != jArr {
			bad()
		}
		s := make(Slice, len(j.arr))
		for i, e := range j.arr {
			s[i] = ex.zero(u.Elem())
			ex.jDec(u.Elem(), &s[i], e, kind)
		}
		*p = s
	case *types.Array:
		if j.k != jArr {
			bad()
		}
		arr := (*p).(Array)
		for i, e := range j.arr {
			if i < len(arr) {
				ex.jDec(u.Elem(), &arr[i], e, kind)
			}
		}
	case *types.Map:
		if j.k != jObj {
			bad()
		}
		m, _ := (*p).(*Map)
		if m == nil {
			m = newMap(u.Key(), u.Elem())
		}
		for i, k := range j.keys {
			var kv Value = k
			if kb, ok := u.Key().Underlying().(*types.Basic); ok && kb.Info()&types.IsInteger != 0 {
				w, _ := bitWidth(kb)
				n, err := strconv.ParseInt(k.String(), 10, 64)
				if err != nil {
					bad()
				}
				kv = ex.c.Const(uint64(n), w)
			}
			var v Value = ex.zero(u.Elem())
			ex.jDec(u.Elem(), &v, j.arr[i], kind)
			m.set(ex, kv, v)
		}
		*p = m
	case *types.Struct:
		if j.k != jObj {
			bad()
		}
		ex.jDecStruct(u, (*p).(Struct), j, kind)
	default:
		ex.unsupported("json decode into %v", t)
	}
}

func (ex *Exec) jDecStruct(u *types.Struct, sv Struct, j *jval, kind string) {
	for _, f := range jfields(u, kind) {
		if f.embedded {
			if est, ok := f.ft.Underlying().(*types.Struct); ok {
				ex.jDecStruct(est, sv[f.idx].(Struct), j, kind)
			} else if pt, ok := f.ft.Underlying().(*types.Pointer); ok {
				if est, ok := pt.Elem().Underlying().(*types.Struct); ok {
					q := new(Value)
					*q = ex.zero(pt.Elem())
					ex.jDecStruct(est, (*q).(Struct), j, kind)
					sv[f.idx] = q
				}
			}
			continue
		}
		for i, k := range j.keys {
			if k.b != nil {
				continue
			}
			if k.s == f.name || (kind == "json" && strings.EqualFold(k.s, f.name)) {
				e := j.arr[i]
				if f.asString && e.k == jStr && e.s.b == nil {
					if n, err := strconv.ParseInt(e.s.s, 10, 64); err == nil {
						e = &jval{k: jNum, t: ex.c.Const(uint64(n), 64), signed: true}
					}
				}
				ex.jDec(f.ft, &sv[f.idx], e, kind)
			}
		}
	}
}

func (ex *Exec) jAny(j *jval, kind string) Value {
	switch j.k {
	case jNull:
		return Iface{}
	case jBool:
		return Iface{types.Typ[types.Bool], j.t}
	case jStr:
		return Iface{types.Typ[types.String], j.s}
	case jBytes:
		return Iface{types.Typ[types.String], ex.b64(j.s)}
	case jNum:
		if j.isF {
			return Iface{types.Typ[types.Float64], Float(j.f)}
		}
		if kind == "yaml" {
			return Iface{types.Typ[types.Int], ex.c.Sext(j.t, 64)}
		}
		return Iface{types.Typ[types.Float64], Float(float64(int64(ex.concretize(j.t))))}
	case jArr:
		et := types.NewInterfaceType(nil, nil)
		s := Slice{}
		for _, e := range j.arr {
			s = append(s, ex.jAny(e, kind))
		}
		return Iface{types.NewSlice(et), s}
	case jObj:
		et := types.NewInterfaceType(nil, nil)
		m := newMap(types.Typ[types.String], et)
		for i, k := range j.keys {
			m.set(ex, k, ex.jAny(j.arr[i], kind))
		}
		return Iface{types.NewMap(types.Typ[types.String], et), m}
	}
	return Iface{}
}

func (ex *Exec) b64(s Str) Str {
	if s.b == nil {
		return str(base64.StdEncoding.EncodeToString([]byte(s.s)))
	}
	enc := *(ex.global(ex.p.pkgs["encoding/base64"].Var("StdEncoding")).(*Value))
	return ex.invoke(Iface{types.NewPointer(ex.p.pkgs["encoding/base64"].Type("Encoding").Type()), enc}, "EncodeToString", fromTerms(s.b)).(Str)
}

func (ex *Exec) b64dec(s Str) Slice {
	enc := *(ex.global(ex.p.pkgs["encoding/base64"].Var("StdEncoding")).(*Value))
	r := ex.invoke(Iface{types.NewPointer(ex.p.pkgs["encoding/base64"].Type("Encoding").Type()), enc}, "DecodeString", s).(Tuple)
	if r[1].(Iface).t != nil {
		return nil
	}
	out := r[0].(Slice)
	if out == nil {
		out = Slice{}
	}
	return out
}

func (ex *Exec) jUnmarshal(b []*Term, target Iface, kind string) Value {
	if target.t == nil {
		return ex.mkError(kind + ": Unmarshal(nil)")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		if mt, isM := target.t.Underlying().(*types.Map); isM && kind == "yaml" {
			var v Value = target.v
			j, msg := ex.jParse(b)
			if msg != "" {
				return ex.mkError(msg)
			}
			_ = mt
			ex.jDec(target.t, &v, j, kind)
			return nilErr()
		}
		return ex.mkError(kind + ": Unmarshal(non-pointer)")
	}
	p, ok := target.v.(*Value)
	if !ok || p == nil {
		return ex.mkError(kind + ": Unmarshal(nil pointer)")
	}
	if kind == "yaml" && len(b) == 0 {
		return nilErr()
	}
	j, msg := ex.jParse(b)
	if msg != "" {
		return ex.mkError(kind + ": " + msg)
	}
	var err Value = nilErr()
	func() {
		fr, d := ex.curFr, ex.depth
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(*jErr); ok {
					ex.curFr, ex.depth = fr, d
					err = ex.mkError(e.msg)
					return
				}
				panic(r)
			}
		}()
		ex.jDec(pt.Elem(), p, j, kind)
	}()
	return err
}

func init() {
	enc := func(kind string) nativeFunc {
		return func(ex *Exec, a []Value) Value {
			iv := a[0].(Iface)
			j := ex.jEnc(iv.t, iv, kind, 0)
			return okT(ex, fromTerms(ex.jMarker(j)))
		}
	}
	dec := func(kind string) nativeFunc {
		return func(ex *Exec, a []Value) Value { return ex.jUnmarshal(bs(a[0]), a[1].(Iface), kind) }
	}
	def("encoding/json.Marshal encoding/json.MarshalIndent", enc("json"))
	def("encoding/json.Unmarshal", dec("json"))
	def("gopkg.in/yaml.v2.Marshal github.com/go-yaml/yaml.Marshal gopkg.in/yaml.v3.Marshal", enc("yaml"))
	def("gopkg.in/yaml.v2.Unmarshal github.com/go-yaml/yaml.Unmarshal gopkg.in/yaml.v3.Unmarshal", dec("yaml"))
	def("encoding/json.NewDecoder", func(ex *Exec, a []Value) Value { return &Native{kind: "jsonDecoder", data: a[0]} })
	def("(*encoding/json.Decoder).Decode", func(ex *Exec, a []Value) Value {
		n := a[0].(*Native)
		rd := n.data.(Iface)
		if rd.t == nil {
			ex.nilDeref()
		}
		r := ex.callNamed("io", "ReadAll", rd).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return e
		}
		b := bs(r[0])
		if len(b) == 0 {
			return *(ex.global(ex.p.pkgs["io"].Var("EOF")).(*Value))
		}
		return ex.jUnmarshal(b, a[1].(Iface), "json")
	})
	def("encoding/json.NewEncoder", func(ex *Exec, a []Value) Value { return &Native{kind: "jsonEncoder", data: a[0]} })
	def("(*encoding/json.Encoder).Encode", func(ex *Exec, a []Value) Value {
		iv := a[1].(Iface)
		m := ex.jMarker(ex.jEnc(iv.t, iv, "json", 0))
		r := ex.invoke(a[0].(*Native).data.(Iface), "Write", fromTerms(append(m, ex.c.bytes['\n']))).(Tuple)
		return r[1]
	})
	// protobuf
	def("github.com/golang/protobuf/proto.Marshal google.golang.org/protobuf/proto.Marshal", protoMarshal)
	def("github.com/golang/protobuf/proto.Unmarshal google.golang.org/protobuf/proto.Unmarshal", protoUnmarshal)
	def("github.com/golang/protobuf/proto.Clone google.golang.org/protobuf/proto.Clone", func(ex *Exec, a []Value) Value {
		iv := a[0].(Iface)
		p := iv.v.(*Value)
		if p == nil {
			return iv
		}
		return Iface{iv.t, ex.deepCopy(p, map[*Value]*Value{}).(*Value)}
	})
	def("github.com/golang/protobuf/proto.Equal google.golang.org/protobuf/proto.Equal", func(ex *Exec, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		xm := protoMarshal(ex, []Value{x}).(Tuple)
		ym := protoMarshal(ex, []Value{y}).(Tuple)
		return ex.bytesEq(bs(xm[0]), bs(ym[0]))
	})
	ptrOf := func(ex *Exec, a []Value) Value {
		v := new(Value)
		*v = copyVal(a[0])
		return v
	}
	for _, pk := range []string{"github.com/golang/protobuf/proto", "google.golang.org/protobuf/proto"} {
		for _, n := range []string{"Uint32", "Uint64", "Int32", "Int64", "Bool", "String"} {
			def(pk+"."+n, ptrOf)
		}
	}
	def("github.com/signal-golang/mimemagic.Match", func(ex *Exec, a []Value) Value { return str("") })
}

func (ex *Exec) deepCopy(v Value, seen map[*Value]*Value) Value {
	switch v := v.(type) {
	case *Value:
		if v == nil {
			return v
		}
		if q, ok := seen[v]; ok {
			return q
		}
		q := new(Value)
		seen[v] = q
		*q = ex.deepCopy(*v, seen)
		return q
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = ex.deepCopy(x, seen)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = ex.deepCopy(x, seen)
		}
		return n
	case Slice:
		if v == nil {
			return v
		}
		n := make(Slice, len(v))
		for i, x := range v {
			n[i] = ex.deepCopy(x, seen)
		}
		return n
	case Iface:
		return Iface{v.t, ex.deepCopy(v.v, seen)}
	}
	return v
}
