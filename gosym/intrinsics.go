package main

import (
	"fmt"
	"strings"
)

var intrinsics map[string]nativeFunc

func (ex *Exec) nondet(name, kind string, w uint8, n int) *NondetRec {
	r := &NondetRec{Name: name, Kind: kind, W: w}
	for i := 0; i < n; i++ {
		r.Terms = append(r.Terms, ex.newVar(w))
	}
	ex.nondets = append(ex.nondets, r)
	return r
}

func (ex *Exec) constStr(v Value) string {
	s := v.(Str)
	if s.b != nil {
		return s.String()
	}
	return s.s
}

func (ex *Exec) assume(t *Term) {
	if t == ex.c.T {
		return
	}
	if t == ex.c.F {
		panic(&pathEnd{"assume", "assumption is false"})
	}
	if ex.pcset[t.id] {
		return
	}
	if ex.eval(t) == 1 {
		ex.addPC(t)
		return
	}
	res, m := ex.solve(t)
	switch res {
	case Unsat:
		panic(&pathEnd{"assume", "assumption is infeasible"})
	case Unknown:
		panic(&pathEnd{"bound", "solver unknown on an assumption at " + ex.where()})
	}
	ex.addPC(t)
	ex.adopt(m)
}

// adopt makes m the guiding model of the rest of the path.
func (ex *Exec) adopt(m map[*Term]uint64) {
	for v, x := range ex.model {
		if _, ok := m[v]; !ok && v.app == nil {
			m[v] = x
		}
	}
	ex.setModel(m)
}

func (ex *Exec) assertTerm(t *Term, label, known string, knownCond *Term) {
	ex.asserts++
	ex.obs = append(ex.obs, obsRec{label: "assert:" + label})
	if t == ex.c.T || ex.pcset[t.id] {
		return
	}
	where := ex.where()
	if known != "" && knownCond != ex.c.F {
		ex.recordViolation(ex.c.And(ex.c.Not(t), knownCond), label, "assert", where, known)
		ex.recordViolation(ex.c.And(ex.c.Not(t), ex.c.Not(knownCond)), label, "assert", where, "")
	} else {
		ex.recordViolation(ex.c.Not(t), label, "assert", where, "")
	}
	ex.assume(t)
}

func init() {
	sc := func(w uint8, kind string) nativeFunc {
		return func(ex *Exec, a []Value) Value {
			return ex.nondet(ex.constStr(a[0]), kind, w, 1).Terms[0]
		}
	}
	intrinsics = map[string]nativeFunc{
		"vfBytes": func(ex *Exec, a []Value) Value {
			return fromTerms(ex.nondet(ex.constStr(a[0]), "bytes", 8, ex.concInt(a[1])).Terms)
		},
		"vfString": func(ex *Exec, a []Value) Value {
			return mkStr(ex.nondet(ex.constStr(a[0]), "bytes", 8, ex.concInt(a[1])).Terms)
		},
		"vfU8":   sc(8, "int"),
		"vfU16":  sc(16, "int"),
		"vfU32":  sc(32, "int"),
		"vfU64":  sc(64, "int"),
		"vfI32":  sc(32, "int"),
		"vfI64":  sc(64, "int"),
		"vfBool": sc(0, "int"),
		"vfInt": func(ex *Exec, a []Value) Value {
			t := ex.nondet(ex.constStr(a[0]), "int", 64, 1).Terms[0]
			lo, hi := a[1].(*Term), a[2].(*Term)
			ex.assume(ex.c.And(ex.c.Cmp(OpSle, lo, t), ex.c.Cmp(OpSle, t, hi)))
			return t
		},
		// a concrete number in [lo,hi], one path each
		"vfLen": func(ex *Exec, a []Value) Value {
			lo, hi := ex.concInt(a[1]), ex.concInt(a[2])
			v := lo + ex.choose(hi-lo+1)
			r := &NondetRec{Name: ex.constStr(a[0]), Kind: "int", W: 64, Terms: []*Term{ex.intV(v)}}
			ex.nondets = append(ex.nondets, r)
			return ex.intV(v)
		},
		"vfChoose": func(ex *Exec, a []Value) Value {
			v := ex.choose(ex.concInt(a[1]))
			ex.nondets = append(ex.nondets, &NondetRec{Name: ex.constStr(a[0]), Kind: "int", W: 64, Terms: []*Term{ex.intV(v)}})
			return ex.intV(v)
		},
		"vfAssume": func(ex *Exec, a []Value) Value { ex.assume(a[0].(*Term)); return nil },
		"vfAssert": func(ex *Exec, a []Value) Value {
			ex.assertTerm(a[0].(*Term), ex.constStr(a[1]), "", nil)
			return nil
		},
		"vfAssertExcept": func(ex *Exec, a []Value) Value {
			ex.assertTerm(a[0].(*Term), ex.constStr(a[1]), ex.constStr(a[2]), a[3].(*Term))
			return nil
		},
		"vfReach": func(ex *Exec, a []Value) Value {
			ex.reached = append(ex.reached, ex.constStr(a[0]))
			ex.obs = append(ex.obs, obsRec{label: "reach:" + ex.constStr(a[0])})
			return nil
		},
		"vfObs": func(ex *Exec, a []Value) Value {
			s, _ := a[1].(Slice)
			ex.obs = append(ex.obs, obsRec{label: "obs:" + ex.constStr(a[0]), terms: append([]*Term{}, terms(s)...)})
			return nil
		},
		"vfObsInt": func(ex *Exec, a []Value) Value {
			ex.obs = append(ex.obs, obsRec{label: "obs:" + ex.constStr(a[0]), terms: []*Term{a[1].(*Term)}})
			return nil
		},
		"vfTier":     func(ex *Exec, a []Value) Value { return ex.intV(ex.w.eng.tier) },
		"vfSymbolic": func(ex *Exec, a []Value) Value { return ex.c.T },
		"vfAnd":      func(ex *Exec, a []Value) Value { return ex.c.And(terms(a[0].(Slice))...) },
		"vfOr":       func(ex *Exec, a []Value) Value { return ex.c.Or(terms(a[0].(Slice))...) },
		"vfImplies": func(ex *Exec, a []Value) Value {
			return ex.c.Or(ex.c.Not(a[0].(*Term)), a[1].(*Term))
		},
		"vfEq": func(ex *Exec, a []Value) Value { return ex.bytesEq(terms(a[0].(Slice)), terms(a[1].(Slice))) },
		"vfIte64": func(ex *Exec, a []Value) Value {
			return ex.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		"vfPanics": func(ex *Exec, a []Value) Value { return ex.c.Bool(ex.catchPanic(a[0])) },
		"vfMustEnd": func(ex *Exec, a []Value) Value {
			ex.mustEnd = true
			ex.callValue(a[0], nil)
			ex.mustEnd = false
			return nil
		},
		"vfCrash": func(ex *Exec, a []Value) Value {
			ex.crashArmed = true
			r := ex.catchPanic(a[0])
			ex.crashArmed, ex.crashed = false, false
			return ex.c.Bool(r)
		},
		// false if some bit of what f returns (other than the given ones) does not
		// depend on secure randomness, or two of its bytes are always equal:
		// what an attacker knowing everything else can tell about a secret
		"vfFresh": func(ex *Exec, a []Value) Value { return ex.c.Bool(ex.fresh(a[0], a[1])) },
		// false only if a and b are equal whatever the values of the inputs
		"vfCanDiffer": func(ex *Exec, a []Value) Value {
			x, _ := a[0].(Slice)
			y, _ := a[1].(Slice)
			eq := ex.bytesEq(terms(x), terms(y))
			if eq == ex.c.T {
				return ex.c.F
			}
			if eq != ex.c.F {
				if res, _ := ex.solve(ex.c.Not(eq)); res == Unsat {
					return ex.c.F
				}
			}
			return ex.c.T
		},
		"vfTempDir": func(ex *Exec, a []Value) Value {
			ex.fsState().tmpN++
			d := str(fmt.Sprintf("/vf%d", ex.fs.tmpN))
			ex.fsMkdirAll(d)
			return d
		},
		"vfSched": func(ex *Exec, a []Value) Value {
			on := ex.concretize(a[0].(*Term)) == 1
			ex.schedOn = on
			return nil
		},
		// let every other goroutine run until it blocks or ends; true when none is still running
		"vfSettle": func(ex *Exec, a []Value) Value {
			return ex.c.Bool(ex.settle())
		},
		"vfDraws4": func(ex *Exec, a []Value) Value {
			ex.drawMask, ex.drawVal = a[0].(*Term).val, a[1].(*Term).val
			return nil
		},
		"vfNow":        func(ex *Exec, a []Value) Value { return ex.c.Const(uint64(ex.clock/1_000_000_000), 64) },
		"vfPass":       func(ex *Exec, a []Value) Value { ex.clock += int64(a[0].(*Term).val) * 1_000_000; return nil },
		"vfMathRandOK": func(ex *Exec, a []Value) Value { return nil },
		"vfLog":        func(ex *Exec, a []Value) Value { return nil },
		"vfWeakRand": func(ex *Exec, a []Value) Value {
			return ex.c.Bool(ex.taintedByWeakRand(terms(a[0].(Slice))))
		},
	}
}

// taintedByWeakRand: do the bytes depend on nothing but math/rand output (and constants)?
func (ex *Exec) taintedByWeakRand(ts []*Term) bool {
	seen := map[*Term]bool{}
	strong, weak := false, false
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			if t.app != nil {
				for _, as := range t.app.args {
					for _, x := range as {
						walk(x)
					}
				}
				return
			}
			if ex.weak[t] {
				weak = true
			} else {
				strong = true
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return weak && !strong
}

// catchPanic runs f and reports whether it ended in a Go panic (or process exit through the logger).
func (ex *Exec) catchPanic(f Value) (panicked bool) {
	fr, d := ex.curFr, ex.depth
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(*goPanic)
		if !ok {
			panic(r)
		}
		ex.curFr, ex.depth = fr, d
		ex.lastPanic = gp.msg + " at " + gp.where
		panicked = true
	}()
	ex.callValue(f, nil)
	ex.curFr, ex.depth = fr, d
	return false
}

func (ex *Exec) settle() bool {
	for n := 0; n < 10000; n++ {
		var rs []*G
		for _, g := range ex.gs {
			if g != ex.cur && g.runnable() {
				rs = append(rs, g)
			}
		}
		if len(rs) == 0 {
			break
		}
		k := 0
		if ex.schedOn {
			k = ex.choose(len(rs))
		}
		ex.switchTo(rs[k])
	}
	for _, g := range ex.gs {
		if g != ex.cur && !g.done {
			return false
		}
	}
	return true
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func init() {
	intrinsics["vfTimers"] = func(ex *Exec, a []Value) Value {
		ex.noTimers = ex.concretize(a[0].(*Term)) == 0
		return nil
	}
	intrinsics["vfFault"] = func(ex *Exec, a []Value) Value {
		ex.faultArmed = ex.concretize(a[0].(*Term)) == 1
		return nil
	}
}

type weakKey struct {
	seed *Term
	pos  int
	w    uint8
}

func (ex *Exec) fresh(f, fixed Value) bool {
	n, o, free := len(ex.nondets), len(ex.obs), ex.freeDraws
	ex.freeDraws = true
	run := func() []*Term {
		ex.weakSeed, ex.weakPos = nil, 0
		r, _ := ex.callValue(f, nil).(Slice)
		return append([]*Term{}, terms(r)...)
	}
	x, y := run(), run()
	ex.freeDraws = free
	ex.nondets, ex.obs = ex.nondets[:n], ex.obs[:o]
	if len(x) == 0 || len(x) != len(y) {
		return false
	}
	var mask []byte
	if m, ok := fixed.(Slice); ok {
		for _, t := range terms(m) {
			mask = append(mask, byte(ex.concretize(t)))
		}
	}
	plain := func(t *Term) bool { return t.op == OpVar && t.app == nil && !ex.weak[t] }
	can := func(t *Term) bool {
		if t == ex.c.T || t == ex.c.F {
			return t == ex.c.T
		}
		res, _ := ex.solve(t)
		return res != Unsat
	}
	for i := range x {
		var m byte
		if i < len(mask) {
			m = mask[i]
		}
		if m == 0xff || plain(x[i]) && plain(y[i]) && x[i] != y[i] {
			continue
		}
		d := ex.c.bin(OpXor, x[i], y[i])
		for b := 0; b < 8; b++ {
			if m>>b&1 == 0 && !can(ex.c.Not(ex.c.Eq(ex.c.bin(OpBAnd, d, ex.c.Const(1<<b, 8)), ex.c.Const(0, 8)))) {
				return false
			}
		}
	}
	for i := range x {
		for j := 0; j < i; j++ {
			if i < len(mask) && mask[i] != 0 || j < len(mask) && mask[j] != 0 || plain(x[i]) && plain(x[j]) && x[i] != x[j] {
				continue
			}
			if !can(ex.c.Not(ex.c.Eq(x[i], x[j]))) {
				return false
			}
		}
	}
	return true
}
