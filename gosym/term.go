package main

// Hash-consed quantifier-free bit-vector terms with eager simplification.
// Width 0 is Bool. Widths are 1..64. A term belongs to one Ctx (one worker).

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool, n-ary
	OpOr  // bool, n-ary
	OpEq  // -> bool
	OpIte
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBAnd
	OpBOr
	OpXor
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract // val = hi<<8|lo
	OpSext
	OpNeg
	OpBNot
)

var opName = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpXor: "bvxor",
	OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat", OpNeg: "bvneg", OpBNot: "bvnot"}

type Term struct {
	op   Op
	w    uint8 // 0 bool
	id   int32
	val  uint64 // const value; extract hi<<8|lo
	args []*Term
	name string
	app  *App // for variables that are an output byte of a function application
	gen  int64
	ev   uint64
}

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
}

type Ctx struct {
	tab   map[tkey]*Term
	ntab  map[string]*Term
	next  int32
	T, F  *Term
	bytes [256]*Term
	gen   int64
}

func NewCtx() *Ctx {
	c := &Ctx{gen: 1, tab: map[tkey]*Term{}, ntab: map[string]*Term{}}
	c.F = c.cons(OpConst, 0, 0)
	c.T = c.cons(OpConst, 0, 1)
	for i := range c.bytes {
		c.bytes[i] = c.cons(OpConst, 8, uint64(i))
	}
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) cons(op Op, w uint8, val uint64, args ...*Term) *Term {
	if len(args) > 3 {
		s := fmt.Sprintf("%d/%d/%d", op, w, val)
		for _, a := range args {
			s += fmt.Sprintf(",%d", a.id)
		}
		if t, ok := c.ntab[s]; ok {
			return t
		}
		c.next++
		t := &Term{op: op, w: w, val: val, args: append([]*Term(nil), args...), id: c.next}
		c.ntab[s] = t
		return t
	}
	k := tkey{op: op, w: w, val: val, a: -1, b: -1, c: -1}
	switch len(args) {
	case 3:
		k.c = args[2].id
		fallthrough
	case 2:
		k.b = args[1].id
		fallthrough
	case 1:
		k.a = args[0].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{op: op, w: w, val: val, id: c.next}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Var(name string, w uint8) *Term {
	c.next++
	return &Term{op: OpVar, w: w, id: c.next, name: name}
}

func (c *Ctx) Const(v uint64, w uint8) *Term {
	v &= mask(w)
	if w == 8 {
		return c.bytes[v]
	}
	return c.cons(OpConst, w, v)
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (t *Term) isConst() bool { return t.op == OpConst }

func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return c.cons(OpNot, 0, 0, a)
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OpAnd, c.T, c.F, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OpOr, c.F, c.T, xs) }

func (c *Ctx) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[int32]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x.id] {
			return true
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		n := c.Not(x)
		if seen[n.id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return c.cons(op, 0, 0, out...)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	// piecewise for concats
	if a.op == OpConcat || b.op == OpConcat {
		if a.op == OpConcat && b.isConst() || b.op == OpConcat && a.op == OpConcat || true {
			pa, pb := c.align(a, b)
			if len(pa) > 1 {
				es := make([]*Term, len(pa))
				for i := range pa {
					es[i] = c.Eq(pa[i], pb[i])
				}
				return c.And(es...)
			}
		}
	}
	if b.isConst() {
		switch a.op {
		case OpXor:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.Const(a.args[1].val^b.val, a.w))
			}
		case OpAdd:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.Const(b.val-a.args[1].val, a.w))
			}
		case OpSext:
			x := a.args[0]
			lo := b.val & mask(x.w)
			if uint64(sx(lo, x.w))&mask(a.w) != b.val {
				return c.F
			}
			return c.Eq(x, c.Const(lo, x.w))
		case OpIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() && y.isConst() {
				if x.val == b.val && y.val == b.val {
					return c.T
				}
				if x.val == b.val {
					return a.args[0]
				}
				if y.val == b.val {
					return c.Not(a.args[0])
				}
				return c.F
			}
			if x.isConst() && x.val != b.val {
				return c.And(c.Not(a.args[0]), c.Eq(y, b))
			}
			if y.isConst() && y.val != b.val {
				return c.And(a.args[0], c.Eq(x, b))
			}
		case OpBNot:
			return c.Eq(a.args[0], c.Const(^b.val, a.w))
		}
	}
	if a.op == OpXor && b.op == OpXor && a.args[0] == b.args[0] {
		return c.Eq(a.args[1], b.args[1])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.cons(OpEq, 0, 0, a, b)
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k.isConst() {
		if k.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if k.op == OpNot {
		return c.Ite(k.args[0], b, a)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.val == 1 {
				return c.Or(k, b)
			}
			return c.And(c.Not(k), b)
		}
		if b.isConst() {
			if b.val == 1 {
				return c.Or(c.Not(k), a)
			}
			return c.And(k, a)
		}
	}
	if a.op == OpIte && a.args[0] == k {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == k {
		b = b.args[2]
	}
	return c.cons(OpIte, a.w, 0, k, a, b)
}

// pieces of a term, most significant first
func (c *Ctx) pieces(t *Term) []*Term {
	if t.op == OpConcat {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) align(a, b *Term) (pa, pb []*Term) {
	cut := map[uint8]bool{}
	for _, t := range []*Term{a, b} {
		pos := t.w
		for _, p := range c.pieces(t) {
			pos -= p.w
			cut[pos] = true
		}
	}
	hi := int(a.w)
	for pos := int(a.w) - 1; pos >= 0; pos-- {
		if cut[uint8(pos)] {
			pa = append(pa, c.Extract(a, uint8(hi-1), uint8(pos)))
			pb = append(pb, c.Extract(b, uint8(hi-1), uint8(pos)))
			hi = pos
		}
	}
	return
}

func (c *Ctx) Concat(xs ...*Term) *Term { // msb first
	var out []*Term
	var w uint8
	var add func(x *Term)
	add = func(x *Term) {
		if x.op == OpConcat {
			for _, y := range x.args {
				add(y)
			}
			return
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.isConst() && x.isConst() {
				out[n-1] = c.Const(p.val<<x.w|x.val, p.w+x.w)
				return
			}
			if p.op == OpExtract && x.op == OpExtract && p.args[0] == x.args[0] {
				plo := p.val & 0xff
				xhi := x.val >> 8
				if plo == xhi+1 {
					out[n-1] = c.Extract(p.args[0], uint8(p.val>>8), uint8(x.val&0xff))
					return
				}
			}
		}
		out = append(out, x)
	}
	for _, x := range xs {
		if x == nil || x.w == 0 {
			panic("concat of bool")
		}
		w += x.w
		add(x)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.cons(OpConcat, w, 0, out...)
}

func (c *Ctx) Extract(t *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == t.w {
		return t
	}
	switch t.op {
	case OpConst:
		return c.Const(t.val>>lo, w)
	case OpExtract:
		b := uint8(t.val & 0xff)
		return c.Extract(t.args[0], hi+b, lo+b)
	case OpConcat:
		pos := t.w
		var out []*Term
		for _, p := range t.args {
			phi := pos - 1
			plo := pos - p.w
			pos = plo
			if plo > hi || phi < lo {
				continue
			}
			h, l := hi, lo
			if h > phi {
				h = phi
			}
			if l < plo {
				l = plo
			}
			out = append(out, c.Extract(p, h-plo, l-plo))
		}
		return c.Concat(out...)
	case OpBAnd, OpBOr, OpXor:
		return c.bin(t.op, c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case OpBNot:
		return c.BNot(c.Extract(t.args[0], hi, lo))
	case OpIte:
		if t.args[1].isConst() || t.args[2].isConst() {
			return c.Ite(t.args[0], c.Extract(t.args[1], hi, lo), c.Extract(t.args[2], hi, lo))
		}
	case OpSext:
		x := t.args[0]
		if hi < x.w {
			return c.Extract(x, hi, lo)
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.bin(t.op, c.Extract(t.args[0], hi, 0), c.Extract(t.args[1], hi, 0))
		}
	case OpNeg:
		if lo == 0 {
			return c.Neg(c.Extract(t.args[0], hi, 0))
		}
	}
	return c.cons(OpExtract, w, uint64(hi)<<8|uint64(lo), t)
}

func (c *Ctx) Zext(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	return c.Concat(c.Const(0, w-t.w), t)
}
func (c *Ctx) Sext(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return c.Const(uint64(sx(t.val, t.w)), w)
	}
	if t.op == OpConcat && t.args[0].isConst() && t.args[0].val>>(t.args[0].w-1) == 0 {
		return c.Zext(t, w)
	}
	return c.cons(OpSext, w, 0, t)
}
func (c *Ctx) Neg(t *Term) *Term {
	if t.isConst() {
		return c.Const(-t.val, t.w)
	}
	return c.cons(OpNeg, t.w, 0, t)
}
func (c *Ctx) BNot(t *Term) *Term {
	if t.isConst() {
		return c.Const(^t.val, t.w)
	}
	if t.op == OpBNot {
		return t.args[0]
	}
	if t.op == OpConcat {
		xs := make([]*Term, len(t.args))
		for i, a := range t.args {
			xs[i] = c.BNot(a)
		}
		return c.Concat(xs...)
	}
	return c.cons(OpBNot, t.w, 0, t)
}

func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("cmp width")
	}
	if a == b {
		return c.Bool(op == OpUle || op == OpSle)
	}
	if a.isConst() && b.isConst() {
		switch op {
		case OpUlt:
			return c.Bool(a.val < b.val)
		case OpUle:
			return c.Bool(a.val <= b.val)
		case OpSlt:
			return c.Bool(sx(a.val, a.w) < sx(b.val, b.w))
		case OpSle:
			return c.Bool(sx(a.val, a.w) <= sx(b.val, b.w))
		}
	}
	// common zero prefix: compare low parts unsigned
	za, zb := c.leadZero(a), c.leadZero(b)
	if z := min(za, zb); z > 0 {
		if z >= a.w {
			z = a.w - 1
		}
		nop := op
		if op == OpSlt {
			nop = OpUlt
		}
		if op == OpSle {
			nop = OpUle
		}
		return c.Cmp(nop, c.Extract(a, a.w-z-1, 0), c.Extract(b, b.w-z-1, 0))
	}
	if op == OpUlt {
		if b.isConst() && b.val == 0 {
			return c.F
		}
		if a.isConst() && a.val == mask(a.w) {
			return c.F
		}
		if b.isConst() && b.val == 1 {
			return c.Eq(a, c.Const(0, a.w))
		}
	}
	if op == OpUle {
		if a.isConst() && a.val == 0 {
			return c.T
		}
		if b.isConst() && b.val == mask(b.w) {
			return c.T
		}
		return c.Not(c.Cmp(OpUlt, b, a))
	}
	if op == OpSle {
		return c.Not(c.Cmp(OpSlt, b, a))
	}
	return c.cons(op, 0, 0, a, b)
}

func (c *Ctx) leadZero(a *Term) uint8 {
	switch a.op {
	case OpConst:
		return a.w - uint8(bits.Len64(a.val))
	case OpConcat:
		if p := a.args[0]; p.isConst() {
			z := p.w - uint8(bits.Len64(p.val))
			return z
		}
	}
	return 0
}

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("bin %s width %d %d", opName[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, a.val, b.val, w); ok {
			return c.Const(v, w)
		}
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	full := mask(w)
	switch op {
	case OpAdd:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].isConst() {
				return c.bin(OpAdd, a.args[0], c.Const(a.args[1].val+b.val, w))
			}
		}
		// disjoint bits -> or
		if r := c.disjoint(a, b); r != nil {
			return r
		}
		if a.op == OpAdd && a.args[1].isConst() && !b.isConst() {
			return c.bin(OpAdd, c.bin(OpAdd, a.args[0], b), a.args[1])
		}
		if b.op == OpAdd && b.args[1].isConst() {
			return c.bin(OpAdd, c.bin(OpAdd, a, b.args[0]), b.args[1])
		}
	case OpSub:
		if a == b {
			return c.Const(0, w)
		}
		if b.isConst() {
			return c.bin(OpAdd, a, c.Const(-b.val, w))
		}
		if a.op == OpAdd && a.args[0] == b {
			return a.args[1]
		}
		if a.op == OpAdd && a.args[1] == b {
			return a.args[0]
		}
	case OpMul:
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if b.val&(b.val-1) == 0 {
				return c.bin(OpShl, a, c.Const(uint64(bits.TrailingZeros64(b.val)), w))
			}
		}
	case OpUdiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
			return c.bin(OpLshr, a, c.Const(uint64(bits.TrailingZeros64(b.val)), w))
		}
		if z := min(c.leadZero(a), c.leadZero(b)); z > 0 && z < w {
			return c.Zext(c.bin(op, c.Extract(a, w-z-1, 0), c.Extract(b, w-z-1, 0)), w)
		}
	case OpUrem:
		if b.isConst() && b.val == 1 {
			return c.Const(0, w)
		}
		if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
			return c.bin(OpBAnd, a, c.Const(b.val-1, w))
		}
		if z := min(c.leadZero(a), c.leadZero(b)); z > 0 && z < w {
			return c.Zext(c.bin(op, c.Extract(a, w-z-1, 0), c.Extract(b, w-z-1, 0)), w)
		}
	case OpSdiv, OpSrem:
		if c.leadZero(a) > 0 && c.leadZero(b) > 0 {
			if op == OpSdiv {
				return c.bin(OpUdiv, a, b)
			}
			return c.bin(OpUrem, a, b)
		}
	case OpBAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == full {
				return a
			}
			// split constant into runs
			if rs := runs(b.val, w); len(rs) <= 4 {
				var out []*Term
				for _, r := range rs {
					if r.one {
						out = append(out, c.Extract(a, r.hi, r.lo))
					} else {
						out = append(out, c.Const(0, r.hi-r.lo+1))
					}
				}
				return c.Concat(out...)
			}
		}
		if r := c.piecewise(op, a, b); r != nil {
			return r
		}
	case OpBOr:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val == full {
				return b
			}
			if rs := runs(b.val, w); len(rs) <= 4 {
				var out []*Term
				for _, r := range rs {
					if r.one {
						out = append(out, c.Const(mask(r.hi-r.lo+1), r.hi-r.lo+1))
					} else {
						out = append(out, c.Extract(a, r.hi, r.lo))
					}
				}
				return c.Concat(out...)
			}
		}
		if r := c.disjoint(a, b); r != nil {
			return r
		}
		if r := c.piecewise(op, a, b); r != nil {
			return r
		}
	case OpXor:
		if a == b {
			return c.Const(0, w)
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && b.val == full {
			return c.BNot(a)
		}
		if r := c.piecewise(op, a, b); r != nil {
			return r
		}
		// flatten and cancel
		m := map[*Term]int{}
		var order []*Term
		var k uint64
		var walk func(t *Term)
		walk = func(t *Term) {
			if t.op == OpXor {
				walk(t.args[0])
				walk(t.args[1])
				return
			}
			if t.isConst() {
				k ^= t.val
				return
			}
			if t.op == OpBNot {
				k ^= full
				walk(t.args[0])
				return
			}
			m[t]++
			if m[t] == 1 {
				order = append(order, t)
			}
		}
		walk(a)
		walk(b)
		var live []*Term
		for _, t := range order {
			if m[t]%2 == 1 {
				live = append(live, t)
			}
		}
		// canonical order
		for i := 1; i < len(live); i++ {
			for j := i; j > 0 && live[j-1].id > live[j].id; j-- {
				live[j-1], live[j] = live[j], live[j-1]
			}
		}
		if len(live) == 0 {
			return c.Const(k, w)
		}
		r := live[0]
		for _, t := range live[1:] {
			r = c.cons(OpXor, w, 0, r, t)
		}
		if k != 0 {
			if k == full {
				return c.BNot(r)
			}
			r = c.cons(OpXor, w, 0, r, c.Const(k, w))
		}
		return r
	case OpShl:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				return c.Const(0, w)
			}
			k := uint8(b.val)
			return c.Concat(c.Extract(a, w-1-k, 0), c.Const(0, k))
		}
	case OpLshr:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				return c.Const(0, w)
			}
			k := uint8(b.val)
			return c.Concat(c.Const(0, k), c.Extract(a, w-1, k))
		}
	case OpAshr:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			k := b.val
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			return c.Sext(c.Extract(a, w-1, uint8(k)), w)
		}
		if c.leadZero(a) > 0 {
			return c.bin(OpLshr, a, b)
		}
	}
	return c.cons(op, w, 0, a, b)
}

type run struct {
	hi, lo uint8
	one    bool
}

func runs(v uint64, w uint8) []run {
	var out []run
	for i := int(w) - 1; i >= 0; i-- {
		one := v>>uint(i)&1 == 1
		if n := len(out); n > 0 && out[n-1].one == one {
			out[n-1].lo = uint8(i)
		} else {
			out = append(out, run{uint8(i), uint8(i), one})
		}
	}
	return out
}

// disjoint returns a|b when every aligned piece has one constant-zero side.
func (c *Ctx) disjoint(a, b *Term) *Term {
	if a.op != OpConcat && !a.isConst() || b.op != OpConcat && !b.isConst() {
		return nil
	}
	pa, pb := c.align(a, b)
	out := make([]*Term, len(pa))
	for i := range pa {
		switch {
		case pa[i].isConst() && pa[i].val == 0:
			out[i] = pb[i]
		case pb[i].isConst() && pb[i].val == 0:
			out[i] = pa[i]
		default:
			return nil
		}
	}
	return c.Concat(out...)
}

func (c *Ctx) piecewise(op Op, a, b *Term) *Term {
	if a.op != OpConcat && b.op != OpConcat {
		return nil
	}
	pa, pb := c.align(a, b)
	if len(pa) < 2 {
		return nil
	}
	out := make([]*Term, len(pa))
	for i := range pa {
		out[i] = c.bin(op, pa[i], pb[i])
	}
	return c.Concat(out...)
}

func foldBin(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m, true
	case OpSub:
		return (a - b) & m, true
	case OpMul:
		return (a * b) & m, true
	case OpUdiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OpUrem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OpSdiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return m, true
			}
			return 1, true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OpSrem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OpBAnd:
		return a & b, true
	case OpBOr:
		return a | b, true
	case OpXor:
		return a ^ b, true
	case OpShl:
		if b >= uint64(w) {
			return 0, true
		}
		return a << b & m, true
	case OpLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OpAshr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = 63
		}
		return uint64(x>>b) & m, true
	}
	return 0, false
}

// ---- evaluation under a model ----

type Model map[*Term]uint64

// Eval evaluates t; get supplies values of variables.
func (c *Ctx) Eval(t *Term, get func(*Term) uint64) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.gen == c.gen {
		return t.ev
	}
	var v uint64
	switch t.op {
	case OpVar:
		v = get(t) & mask(t.w)
	case OpNot:
		v = 1 - c.Eval(t.args[0], get)
	case OpAnd:
		v = 1
		for _, a := range t.args {
			if c.Eval(a, get) == 0 {
				v = 0
				break
			}
		}
	case OpOr:
		for _, a := range t.args {
			if c.Eval(a, get) == 1 {
				v = 1
				break
			}
		}
	case OpEq:
		if c.Eval(t.args[0], get) == c.Eval(t.args[1], get) {
			v = 1
		}
	case OpIte:
		if c.Eval(t.args[0], get) == 1 {
			v = c.Eval(t.args[1], get)
		} else {
			v = c.Eval(t.args[2], get)
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		a, b := c.Eval(t.args[0], get), c.Eval(t.args[1], get)
		w := t.args[0].w
		r := false
		switch t.op {
		case OpUlt:
			r = a < b
		case OpUle:
			r = a <= b
		case OpSlt:
			r = sx(a, w) < sx(b, w)
		case OpSle:
			r = sx(a, w) <= sx(b, w)
		}
		if r {
			v = 1
		}
	case OpConcat:
		for _, a := range t.args {
			v = v<<a.w | c.Eval(a, get)
		}
	case OpExtract:
		v = c.Eval(t.args[0], get) >> (t.val & 0xff) & mask(t.w)
	case OpSext:
		v = uint64(sx(c.Eval(t.args[0], get), t.args[0].w)) & mask(t.w)
	case OpNeg:
		v = -c.Eval(t.args[0], get) & mask(t.w)
	case OpBNot:
		v = ^c.Eval(t.args[0], get) & mask(t.w)
	default:
		v, _ = foldBin(t.op, c.Eval(t.args[0], get), c.Eval(t.args[1], get), t.w)
	}
	t.gen, t.ev = c.gen, v
	return v
}

// show prints a term (debugging).
func (c *Ctx) show(t *Term) string { return showT(t, 6) }

func showT(t *Term, d int) string {
	switch {
	case t.op == OpConst:
		return fmt.Sprintf("%#x", t.val)
	case t.op == OpVar:
		return t.name
	case d == 0:
		return fmt.Sprintf("t%d", t.id)
	}
	s := "(" + opName[t.op]
	if t.op == OpExtract {
		s += fmt.Sprintf("[%d:%d]", t.val>>8, t.val&0xff)
	}
	for _, a := range t.args {
		s += " " + showT(a, d-1)
	}
	return s + ")"
}
