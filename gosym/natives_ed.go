package main

// Idealised Edwards-curve arithmetic behind the XEdDSA-style signatures of
// curve25519sign. Field elements and points are carried as 32 encoded bytes
// packed into the first eight limbs of a FieldElement.
//
// Idealisation: EDPUB(a) is the encoding of a*B; SMA(h,a,r) is h*a+r mod L; a
// signature (R,s) over M verifies under A exactly when it was made by the
// signing equation: A=EDPUB(a), R=EDPUB(r), s=SMA(SCRED(SHA512(R|A|M)),a,r).

import (
	"crypto/ed25519"
	"math/big"
)

var (
	edP, _  = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	edL, _  = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	edD, _  = new(big.Int).SetString("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3", 16)
	edBx, _ = new(big.Int).SetString("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a", 16)
	edBy, _ = new(big.Int).SetString("6666666666666666666666666666666666666666666666666666666666666658", 16)
)

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}
func leBytes(x *big.Int) []byte {
	b := x.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}

type edPt struct{ x, y, z *big.Int }

func edAdd(p, q edPt) edPt {
	m := func(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, edP) }
	A := m(p.z, q.z)
	B := m(A, A)
	C := m(p.x, q.x)
	D := m(p.y, q.y)
	E := m(edD, m(C, D))
	F := new(big.Int).Sub(B, E)
	G := new(big.Int).Add(B, E)
	t := m(new(big.Int).Add(p.x, p.y), new(big.Int).Add(q.x, q.y))
	t.Sub(t, C).Sub(t, D)
	x := m(m(A, F), t)
	y := m(m(A, G), new(big.Int).Add(D, C))
	z := m(F, G)
	return edPt{x, y, z}
}

func edBaseMul(a []byte) []byte {
	k := leInt(a)
	r := edPt{big.NewInt(0), big.NewInt(1), big.NewInt(1)}
	b := edPt{edBx, edBy, big.NewInt(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, b)
		}
	}
	zi := new(big.Int).ModInverse(r.z, edP)
	x := new(big.Int).Mul(r.x, zi)
	x.Mod(x, edP)
	y := new(big.Int).Mul(r.y, zi)
	y.Mod(y, edP)
	o := leBytes(y)
	o[31] |= byte(x.Bit(0)) << 7
	return o
}

func feOp(f func(r, a, b *big.Int)) func(a [][]byte) []byte {
	return func(a [][]byte) []byte {
		x := new(big.Int).Mod(leInt(a[0]), edP)
		y := new(big.Int)
		if len(a) > 1 {
			y.Mod(leInt(a[1]), edP)
		}
		r := new(big.Int)
		f(r, x, y)
		return leBytes(r.Mod(r, edP))
	}
}

var (
	spEDPUB = reg(&fnSpec{name: "EDPUB", out: 32, inj: 31, real: func(a [][]byte) []byte { return edBaseMul(a[0]) }})
	spFEADD = reg(&fnSpec{name: "FEADD", out: 32, real: feOp(func(r, a, b *big.Int) { r.Add(a, b) })})
	spFESUB = reg(&fnSpec{name: "FESUB", out: 32, real: feOp(func(r, a, b *big.Int) { r.Sub(a, b) })})
	spFEMUL = reg(&fnSpec{name: "FEMUL", out: 32, real: feOp(func(r, a, b *big.Int) { r.Mul(a, b) })})
	spFEINV = reg(&fnSpec{name: "FEINV", out: 32, real: feOp(func(r, a, b *big.Int) { r.Exp(a, new(big.Int).Sub(edP, big.NewInt(2)), edP) })})
	spSCRED = reg(&fnSpec{name: "SCRED", out: 32, inj: 31, real: func(a [][]byte) []byte { x := leInt(a[0]); return leBytes(x.Mod(x, edL)) }})
	spSMA   = reg(&fnSpec{name: "SMA", out: 32, inj: 31, real: func(a [][]byte) []byte {
		x := new(big.Int).Mul(leInt(a[0]), leInt(a[1]))
		x.Add(x, leInt(a[2]))
		return leBytes(x.Mod(x, edL))
	}})
)

func edVerifyReal(pub, msg, sig []byte) bool { return ed25519.Verify(pub, msg, sig) }

func (ex *Exec) packFE(p Value, b []*Term) {
	a := (*(p.(*Value))).(Array)
	for i := 0; i < 8; i++ {
		a[i] = ex.c.Concat(b[4*i+3], b[4*i+2], b[4*i+1], b[4*i])
	}
	a[8], a[9] = ex.c.Const(0, 32), ex.c.Const(0, 32)
}
func (ex *Exec) unpackFE(p Value) []*Term {
	a := (*(p.(*Value))).(Array)
	var o []*Term
	for i := 0; i < 8; i++ {
		t := a[i].(*Term)
		for k := 0; k < 4; k++ {
			o = append(o, ex.c.Extract(t, uint8(8*k+7), uint8(8*k)))
		}
	}
	return o
}
func (ex *Exec) topMask(b []*Term, m uint64) []*Term {
	o := append([]*Term(nil), b...)
	o[31] = ex.c.bin(OpBAnd, o[31], ex.c.Const(m, 8))
	return o
}

func (ex *Exec) appOf(sp *fnSpec, outs []*Term) *App {
	for _, a := range ex.apps {
		if a.spec == sp && sameTerms(a.outs, outs) {
			return a
		}
	}
	return nil
}

// edwardsY rewrites (u-1)/(u+1) with u = PUB(a) to the y coordinate of EDPUB(a).
func (ex *Exec) edwardsY(b []*Term) []*Term {
	m := ex.appOf(spFEMUL, b)
	if m == nil {
		return b
	}
	one := make([]*Term, 32)
	for i := range one {
		one[i] = ex.c.bytes[0]
	}
	one[0] = ex.c.bytes[1]
	for k := 0; k < 2; k++ {
		s, v := ex.appOf(spFESUB, m.args[k]), ex.appOf(spFEINV, m.args[1-k])
		if s == nil || v == nil || !sameTerms(s.args[1], one) {
			continue
		}
		d := ex.appOf(spFEADD, v.args[0])
		if d == nil {
			continue
		}
		u := d.args[0]
		if !sameTerms(d.args[1], one) {
			if !sameTerms(u, one) {
				continue
			}
			u = d.args[1]
		}
		if !sameTerms(u, s.args[0]) {
			continue
		}
		for _, p := range ex.apps {
			if p.spec == spPUB && sameTerms(ex.topMask(p.outs, 0x7f), u) {
				return ex.topMask(ex.apply(spEDPUB, p.args[0]), 0x7f)
			}
		}
	}
	return b
}

func init() {
	const e = "github.com/signal-golang/ed25519/edwards25519."
	one := func(ex *Exec, n uint64) []*Term {
		o := make([]*Term, 32)
		for i := range o {
			o[i] = ex.c.bytes[0]
		}
		o[0] = ex.c.bytes[n]
		return o
	}
	def(e+"FeZero", func(ex *Exec, a []Value) Value { ex.packFE(a[0], one(ex, 0)); return nil })
	def(e+"FeOne", func(ex *Exec, a []Value) Value { ex.packFE(a[0], one(ex, 1)); return nil })
	def(e+"FeCopy", func(ex *Exec, a []Value) Value { ex.packFE(a[0], ex.unpackFE(a[1])); return nil })
	def(e+"FeFromBytes", func(ex *Exec, a []Value) Value { ex.packFE(a[0], ex.topMask(bs(a[1]), 0x7f)); return nil })
	def(e+"FeToBytes", func(ex *Exec, a []Value) Value {
		setBytes(Slice((*(a[0].(*Value))).(Array)), ex.edwardsY(ex.unpackFE(a[1])))
		return nil
	})
	bin := func(sp *fnSpec) nativeFunc {
		return func(ex *Exec, a []Value) Value {
			ex.packFE(a[0], ex.apply(sp, ex.unpackFE(a[1]), ex.unpackFE(a[2])))
			return nil
		}
	}
	def(e+"FeAdd", bin(spFEADD))
	def(e+"FeSub", bin(spFESUB))
	def(e+"FeMul", bin(spFEMUL))
	def(e+"FeInvert", func(ex *Exec, a []Value) Value { ex.packFE(a[0], ex.apply(spFEINV, ex.unpackFE(a[1]))); return nil })
	def(e+"GeScalarMultBase", func(ex *Exec, a []Value) Value {
		s := (*(a[0].(*Value))).(Struct)
		y := s[1].(Array)
		var v Value = y
		ex.packFE(&v, ex.apply(spEDPUB, bs(a[1])))
		return nil
	})
	def("(*"+e+"ExtendedGroupElement).ToBytes", func(ex *Exec, a []Value) Value {
		s := (*(a[0].(*Value))).(Struct)
		var v Value = s[1]
		setBytes(Slice((*(a[1].(*Value))).(Array)), ex.unpackFE(&v))
		return nil
	})
	def(e+"ScReduce", func(ex *Exec, a []Value) Value {
		setBytes(Slice((*(a[0].(*Value))).(Array)), ex.scalar(ex.apply(spSCRED, bs(a[1]))))
		return nil
	})
	def(e+"ScMulAdd", func(ex *Exec, a []Value) Value {
		setBytes(Slice((*(a[0].(*Value))).(Array)), ex.scalar(ex.apply(spSMA, bs(a[1]), bs(a[2]), bs(a[3]))))
		return nil
	})
	def("github.com/signal-golang/ed25519.Verify", func(ex *Exec, a []Value) Value {
		return ex.edVerify(bs(a[0]), bs(a[1]), bs(a[2]))
	})
}

// scalar: reduced scalars are below 2^253.
func (ex *Exec) scalar(b []*Term) []*Term { return ex.topMask(b, 0x1f) }

func (ex *Exec) edVerify(pub, msg, sig []*Term) *Term {
	c := ex.c
	if allConst(pub) && allConst(msg) && allConst(sig) {
		return c.Bool(edVerifyReal(constBytes(pub), constBytes(msg), constBytes(sig)))
	}
	r := c.F
	for _, m := range ex.apps {
		if m.spec != spSMA || len(m.args) != 3 {
			continue
		}
		A, R := ex.appKey[appKeyOf(spEDPUB.name, [][]*Term{m.args[1]})], ex.appKey[appKeyOf(spEDPUB.name, [][]*Term{m.args[2]})]
		if A == nil || R == nil {
			continue
		}
		var in []*Term
		in = append(append(append(in, R.outs...), A.outs...), msg...)
		h := ex.scalar(ex.apply(spSCRED, ex.apply(spSHA512, in)))
		r = c.Or(r, c.And(ex.bytesEq(pub, A.outs), ex.bytesEq(sig[:32], R.outs), ex.bytesEq(sig[32:], ex.scalar(m.outs)), ex.bytesEq(h, m.args[0])))
	}
	return r
}
