package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value any

type (
	Struct []Value
	Array  []Value
	Slice  []Value // nil = nil slice
	Tuple  []Value
	Float  float64
	Cplx   complex128
	Iface  struct {
		t types.Type // nil: nil interface
		v Value
	}
	Str struct {
		s string
		b []*Term // when non-nil: symbolic content
	}
	Closure struct {
		fn  *ssa.Function
		env []Value
	}
	NativeFn struct {
		name string
		fn   func(ex *Exec, args []Value) Value
	}
	// pointer to a slice element with symbolic index
	ElemPtr struct {
		arr []Value
		idx *Term
	}
	// native object (value behind an interface or pointer)
	Native struct {
		kind string
		data any
	}
	badPtr struct{ why string }
)

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (ex *Exec) strBytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = ex.c.bytes[s.s[i]]
	}
	return out
}

func mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.isConst() {
			return Str{b: b}
		}
	}
	x := make([]byte, len(b))
	for i, t := range b {
		x[i] = byte(t.val)
	}
	return Str{s: string(x)}
}

func str(s string) Str { return Str{s: s} }

type mapEntry struct {
	k, v    Value
	deleted bool
	ks      string
	conc    bool
}
type Map struct {
	entries []*mapEntry
	idx     map[string]*mapEntry
	nsym    int
	n       int
	kt, vt  types.Type
}

func bitWidth(b *types.Basic) (uint8, bool) { // width, signed
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 255, false
}

func (ex *Exec) zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Alias:
		return ex.zero(types.Unalias(t))
	case *types.Named:
		return ex.zero(t.Underlying())
	case *types.Basic:
		if t.Info()&(types.IsBoolean|types.IsInteger) != 0 {
			w, _ := bitWidth(t)
			return ex.c.Const(0, w)
		}
		if t.Info()&types.IsString != 0 {
			return Str{}
		}
		if t.Info()&types.IsFloat != 0 {
			return Float(0)
		}
		if t.Info()&types.IsComplex != 0 {
			return Cplx(0)
		}
		if t.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if t.Kind() == types.UntypedNil {
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = ex.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(t.Len())
		if n > 1<<22 {
			ex.unsupported("huge array")
		}
		a := make(Array, n)
		if n > 0 {
			e := t.Elem().Underlying()
			z := ex.zero(t.Elem())
			_, isS := e.(*types.Struct)
			_, isA := e.(*types.Array)
			for i := range a {
				if isS || isA {
					a[i] = ex.zero(t.Elem())
				} else {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		if t.Len() == 0 {
			return nil
		}
		if t.Len() == 1 {
			return ex.zero(t.At(0).Type())
		}
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = ex.zero(t.At(i).Type())
		}
		return r
	case *types.TypeParam:
		ex.unsupported("type parameter zero")
	}
	panic(fmt.Sprintf("zero: %T %v", t, t))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	}
	return v
}

func (ex *Exec) store(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				ex.store(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				ex.store(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func (ex *Exec) constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return ex.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := c.Type().(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return ex.c.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			w, _ := bitWidth(b)
			v := constant.ToInt(c.Value)
			if u, ok := constant.Uint64Val(v); ok {
				return ex.c.Const(u, w)
			}
			i, _ := constant.Int64Val(v)
			return ex.c.Const(uint64(i), w)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return Str{s: constant.StringVal(c.Value)}
			}
			i, _ := constant.Int64Val(c.Value)
			return Str{s: string(rune(i))}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return Float(f)
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return Cplx(complex(re, im))
		}
	}
	if _, ok := t.(*types.Interface); ok {
		return Iface{}
	}
	panic(fmt.Sprintf("constValue %v %v", c, t))
}

// equals builds the equality term of two values of static type t.
func (ex *Exec) equals(t types.Type, x, y Value) *Term {
	switch x := x.(type) {
	case *Term:
		return ex.c.Eq(x, y.(*Term))
	case Str:
		return ex.strEq(x, y.(Str))
	case Float:
		return ex.c.Bool(x == y.(Float))
	case Cplx:
		return ex.c.Bool(x == y.(Cplx))
	case Iface:
		yi, ok := y.(Iface)
		if !ok {
			panic(fmt.Sprintf("equals iface vs %T", y))
		}
		if x.t == nil || yi.t == nil {
			return ex.c.Bool(x.t == nil && yi.t == nil)
		}
		if !types.Identical(x.t, yi.t) {
			return ex.c.F
		}
		if !types.Comparable(x.t) {
			ex.goPanicRT("comparing uncomparable type " + x.t.String())
		}
		return ex.equals(x.t, x.v, yi.v)
	case Struct:
		ys := y.(Struct)
		st := t.Underlying().(*types.Struct)
		r := ex.c.T
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = ex.c.And(r, ex.equals(st.Field(i).Type(), x[i], ys[i]))
		}
		return r
	case Array:
		ya := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		rs := make([]*Term, len(x))
		for i := range x {
			rs[i] = ex.equals(et, x[i], ya[i])
		}
		return ex.c.And(rs...)
	case *Value:
		yp, ok := y.(*Value)
		if !ok {
			return ex.c.F
		}
		return ex.c.Bool(x == yp)
	case *Native:
		yp, ok := y.(*Native)
		return ex.c.Bool(ok && x == yp)
	case *ElemPtr:
		ex.unsupported("compare symbolic element pointers")
	case *Chan:
		return ex.c.Bool(x == y.(*Chan))
	case *Map:
		return ex.c.Bool(x == nil && y.(*Map) == nil)
	case Slice:
		return ex.c.Bool(x == nil && y.(Slice) == nil)
	case *ssa.Function:
		if yf, ok := y.(*ssa.Function); ok {
			return ex.c.Bool(x == yf)
		}
		return ex.c.F
	case *Closure, *NativeFn, *ssa.Builtin:
		return ex.c.F // only comparable to nil
	case nil:
		return ex.c.Bool(y == nil)
	}
	panic(fmt.Sprintf("equals %T", x))
}

func (ex *Exec) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return ex.c.F
	}
	if a.b == nil && b.b == nil {
		return ex.c.Bool(a.s == b.s)
	}
	return ex.bytesEq(ex.strBytes(a), ex.strBytes(b))
}

func (ex *Exec) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) || ex.knownDistinct(a, b, 400) {
		return ex.c.F
	}
	rs := make([]*Term, len(a))
	for i := range a {
		rs[i] = ex.c.Eq(a[i], b[i])
		if rs[i] == ex.c.F {
			return ex.c.F
		}
	}
	return ex.c.And(rs...)
}

// knownDistinct: a and b (of equal length) differ whatever the values of the
// variables, because idealised functions without collisions are applied to
// arguments that differ.
func (ex *Exec) knownDistinct(a, b []*Term, depth int) bool {
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		if a[i].isConst() && b[i].isConst() {
			return true
		}
	}
	if depth == 0 {
		return false
	}
	for i := 0; i < len(a); i++ {
		x, y := a[i].app, b[i].app
		if x == nil || y == nil || x == y || x.inverse || y.inverse || x.spec != y.spec || x.spec.inj == 0 || i+x.spec.inj > len(a) {
			continue
		}
		n := x.spec.inj
		full := true
		for j := 0; j < n; j++ {
			if a[i+j] != x.outs[j] || b[i+j] != y.outs[j] {
				full = false
				break
			}
		}
		if full && ex.appsDistinct(x, y, depth-1) {
			return true
		}
	}
	return false
}

func (ex *Exec) appsDistinct(x, y *App, depth int) bool {
	if x.id > y.id {
		x, y = y, x
	}
	k := [2]int{x.id, y.id}
	if v, ok := ex.distinct[k]; ok {
		return v
	}
	r := false
	if len(x.args) != len(y.args) {
		r = true
	} else {
		for i := range x.args {
			if len(x.args[i]) != len(y.args[i]) || ex.knownDistinct(x.args[i], y.args[i], depth) {
				r = true
				break
			}
		}
		if r && x.spec == spDH {
			r = ex.crossTerm(x, y) == ex.c.F
		}
	}
	if ex.distinct == nil {
		ex.distinct = map[[2]int]bool{}
	}
	ex.distinct[k] = r
	return r
}

// lexicographic a < b
func (ex *Exec) bytesLess(a, b []*Term) *Term {
	n := min(len(a), len(b))
	r := ex.c.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = ex.c.Or(ex.c.Cmp(OpUlt, a[i], b[i]), ex.c.And(ex.c.Eq(a[i], b[i]), r))
	}
	return r
}

// key string of a fully concrete value
func keyStr(v Value, b *strings.Builder) bool {
	switch v := v.(type) {
	case *Term:
		if !v.isConst() {
			return false
		}
		fmt.Fprintf(b, "i%d;", v.val)
	case Str:
		if v.b != nil {
			return false
		}
		fmt.Fprintf(b, "s%d:%s;", len(v.s), v.s)
	case Float:
		fmt.Fprintf(b, "f%v;", v)
	case Iface:
		if v.t == nil {
			b.WriteString("nil;")
			return true
		}
		fmt.Fprintf(b, "I%s(", v.t.String())
		if !keyStr(v.v, b) {
			return false
		}
		b.WriteString(");")
	case Struct:
		b.WriteString("{")
		for _, x := range v {
			if !keyStr(x, b) {
				return false
			}
		}
		b.WriteString("}")
	case Array:
		b.WriteString("[")
		for _, x := range v {
			if !keyStr(x, b) {
				return false
			}
		}
		b.WriteString("]")
	case *Value:
		fmt.Fprintf(b, "p%p;", v)
	case *Native:
		fmt.Fprintf(b, "n%p;", v)
	case *Chan:
		fmt.Fprintf(b, "c%p;", v)
	default:
		return false
	}
	return true
}

func (m *Map) find(ex *Exec, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	var sb strings.Builder
	conc := keyStr(k, &sb)
	if conc {
		if e, ok := m.idx[sb.String()]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.deleted || (conc && e.conc) {
			continue
		}
		if ex.branch(ex.equals(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Map) set(ex *Exec, k, v Value) {
	if e := m.find(ex, k); e != nil {
		e.v = copyVal(v)
		return
	}
	var sb strings.Builder
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	if keyStr(k, &sb) {
		e.conc, e.ks = true, sb.String()
		m.idx[e.ks] = e
	} else {
		m.nsym++
	}
	m.entries = append(m.entries, e)
	m.n++
}

func (m *Map) del(ex *Exec, k Value) {
	if m == nil {
		return
	}
	if e := m.find(ex, k); e != nil {
		e.deleted = true
		m.n--
		if e.conc {
			delete(m.idx, e.ks)
		} else {
			m.nsym--
		}
		for i, x := range m.entries {
			if x == e {
				m.entries = append(append([]*mapEntry(nil), m.entries[:i]...), m.entries[i+1:]...)
				break
			}
		}
	}
}

func newMap(kt, vt types.Type) *Map {
	return &Map{idx: map[string]*mapEntry{}, kt: kt, vt: vt}
}
