package main

import (
	"fmt"
	"go/types"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func decodeSize(s string) int {
	_, n := utf8.DecodeRuneInString(s)
	return n
}

func (fr *frame) builtin(b *ssa.Builtin, args []Value, in *ssa.Call, cc *ssa.CallCommon) Value {
	ex := fr.ex
	c := ex.c
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(Slice)
		if st, ok := args[1].(Str); ok {
			return append(s, fromTerms(ex.strBytes(st))...)
		}
		add := args[1].(Slice)
		if len(add) == 0 {
			return s
		}
		// copy elements with value semantics
		cp := make(Slice, len(add))
		for i := range add {
			cp[i] = copyVal(add[i])
		}
		return append(s, cp...)
	case "copy":
		dst := args[0].(Slice)
		var src Slice
		if st, ok := args[1].(Str); ok {
			src = fromTerms(ex.strBytes(st))
		} else {
			src = args[1].(Slice)
		}
		n := min(len(dst), len(src))
		tmp := make(Slice, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			ex.store(&dst[i], tmp[i])
		}
		return c.Const(uint64(n), 64)
	case "len":
		switch x := args[0].(type) {
		case Str:
			return c.Const(uint64(x.Len()), 64)
		case Slice:
			return c.Const(uint64(len(x)), 64)
		case Array:
			return c.Const(uint64(len(x)), 64)
		case *Map:
			if x == nil {
				return c.Const(0, 64)
			}
			return c.Const(uint64(x.n), 64)
		case *Chan:
			if x == nil {
				return c.Const(0, 64)
			}
			return c.Const(uint64(len(x.buf)), 64)
		case *Value:
			if x == nil {
				return c.Const(uint64(deref(cc.Args[0].Type()).Underlying().(*types.Array).Len()), 64)
			}
			return c.Const(uint64(len((*x).(Array))), 64)
		case *badPtr:
			ex.unsupported("uninitialized global %s", x.why)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.Const(uint64(cap(x)), 64)
		case Array:
			return c.Const(uint64(len(x)), 64)
		case *Chan:
			return c.Const(uint64(x.cap), 64)
		case *Value:
			return c.Const(uint64(len((*x).(Array))), 64)
		}
	case "delete":
		args[0].(*Map).del(ex, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			for _, e := range x.entries {
				e.deleted = true
			}
			x.entries, x.idx, x.n, x.nsym = nil, map[string]*mapEntry{}, 0, 0
		case Slice:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = ex.zero(et)
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(&goPanic{v: args[0], msg: ex.describe(args[0]), where: ex.where()})
	case "recover":
		// called from a deferred function of a panicking frame
		if cl := fr.caller; cl != nil && cl.panicking {
			cl.panicking = false
			v := cl.panicV.v
			return v
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				bt := cc.Args[0].Type().Underlying().(*types.Basic)
				_, signed := bitWidth(bt)
				op := OpUlt
				if signed {
					op = OpSlt
				}
				y := a.(*Term)
				lt := c.Cmp(op, y, x)
				if b.Name() == "max" {
					lt = c.Cmp(op, x, y)
				}
				r = c.Ite(lt, y, x)
			case Float:
				y := a.(Float)
				if (b.Name() == "min") == (y < x) {
					r = y
				}
			default:
				ex.unsupported("min/max on %T", r)
			}
		}
		return r
	case "close":
		ch := args[0].(*Chan)
		if ch == nil {
			ex.nilDeref()
		}
		if ch.closed {
			panic(&goPanic{v: Iface{ex.rtErrType(), str("close of closed channel")}, msg: "close of closed channel", where: ex.where()})
		}
		ch.closed = true
		ex.yieldPoint()
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			ex.nilDeref()
		}
		return args[0]
	case "String": // unsafe.String
		n := ex.concInt(args[1])
		if n == 0 {
			return Str{}
		}
		p := fr.ptr(args[0])
		return mkStr(terms(unsafe.Slice(p, n)))
	case "StringData":
		s := fromTerms(ex.strBytes(args[0].(Str)))
		if len(s) == 0 {
			return (*Value)(nil)
		}
		return &s[0]
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		return &s[:1][0]
	case "Slice": // unsafe.Slice
		n := ex.concInt(args[1])
		p := args[0].(*Value)
		if p == nil {
			return Slice(nil)
		}
		return Slice(unsafe.Slice(p, n))
	case "Sizeof", "Alignof", "Offsetof":
		ex.unsupported("unsafe.%s", b.Name())
	case "real":
		return Float(real(args[0].(Cplx)))
	case "imag":
		return Float(imag(args[0].(Cplx)))
	}
	panic(fmt.Sprintf("builtin %s %T", b.Name(), args[0]))
}
