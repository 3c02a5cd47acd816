package main

// Idealised functions (hashes, ciphers, key agreement) as uninterpreted
// applications with lazily instantiated axioms. When every argument is
// concrete the real function is computed instead.

import (
	"crypto/aes"
	"crypto/ecdh"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
)

type fnSpec struct {
	name string
	out  int
	inj  int  // outputs equal on this prefix imply equal arguments (0: no)
	perm bool // permutation in the last argument (inverse applications exist)
	real func(args [][]byte) []byte
	inv  func(args [][]byte) []byte // args with last = output -> input
}

type App struct {
	spec *fnSpec
	args [][]*Term
	outs []*Term
	// fresh side: outs (fwd) or last arg (inverse)
	inverse bool
	id      int
}

func key2(bs ...[]byte) string {
	var sb strings.Builder
	for _, b := range bs {
		fmt.Fprintf(&sb, "%d:%s", len(b), b)
	}
	return sb.String()
}

var specs = map[string]*fnSpec{}

func reg(s *fnSpec) *fnSpec { specs[s.name] = s; return s }

func x25519Real(priv, pub []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return make([]byte, 32)
	}
	p, err := ecdh.X25519().NewPublicKey(pub)
	if err != nil {
		return make([]byte, 32)
	}
	r, err := k.ECDH(p)
	if err != nil {
		return make([]byte, 32)
	}
	return r
}
func x25519Base(priv []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return make([]byte, 32)
	}
	return k.PublicKey().Bytes()
}

var (
	spHMAC256 = reg(&fnSpec{name: "HMAC-SHA256", out: 32, inj: 4, real: func(a [][]byte) []byte {
		h := hmac.New(sha256.New, a[0])
		h.Write(a[1])
		return h.Sum(nil)
	}})
	spHMAC1 = reg(&fnSpec{name: "HMAC-SHA1", out: 20, inj: 4, real: func(a [][]byte) []byte {
		h := hmac.New(sha1.New, a[0])
		h.Write(a[1])
		return h.Sum(nil)
	}})
	spHMAC512 = reg(&fnSpec{name: "HMAC-SHA512", out: 64, inj: 4, real: func(a [][]byte) []byte {
		h := hmac.New(sha512.New, a[0])
		h.Write(a[1])
		return h.Sum(nil)
	}})
	spSHA256 = reg(&fnSpec{name: "SHA256", out: 32, inj: 16, real: func(a [][]byte) []byte { s := sha256.Sum256(a[0]); return s[:] }})
	spSHA512 = reg(&fnSpec{name: "SHA512", out: 64, inj: 16, real: func(a [][]byte) []byte { s := sha512.Sum512(a[0]); return s[:] }})
	spSHA1   = reg(&fnSpec{name: "SHA1", out: 20, inj: 16, real: func(a [][]byte) []byte { s := sha1.Sum(a[0]); return s[:] }})
	spMD5    = reg(&fnSpec{name: "MD5", out: 16, inj: 16, real: func(a [][]byte) []byte { s := md5.Sum(a[0]); return s[:] }})
	spAES    = reg(&fnSpec{name: "AES", out: 16, perm: true, real: func(a [][]byte) []byte {
		b, err := aes.NewCipher(a[0])
		if err != nil {
			return make([]byte, 16)
		}
		o := make([]byte, 16)
		b.Encrypt(o, a[1])
		return o
	}, inv: func(a [][]byte) []byte {
		b, err := aes.NewCipher(a[0])
		if err != nil {
			return make([]byte, 16)
		}
		o := make([]byte, 16)
		b.Decrypt(o, a[1])
		return o
	}})
	spPUB = reg(&fnSpec{name: "X25519-PUB", out: 32, inj: 32, real: func(a [][]byte) []byte { return x25519Base(a[0]) }})
	spDH  = reg(&fnSpec{name: "X25519", out: 32, inj: 32, real: func(a [][]byte) []byte { return x25519Real(a[0], a[1]) }})
	// GCM: keystream block and tag
	spGHASH = reg(&fnSpec{name: "GCM-TAG", out: 16, inj: 8, real: func(a [][]byte) []byte {
		h := hmac.New(sha256.New, a[0])
		for _, x := range a[1:] {
			var l [8]byte
			binary.BigEndian.PutUint64(l[:], uint64(len(x)))
			h.Write(l[:])
			h.Write(x)
		}
		return h.Sum(nil)[:16]
	}})
	// generic PRF for opaque results
	spGEN = map[string]*fnSpec{}
)

// generic uninterpreted function with given output size
func genSpec(name string, out, inj int) *fnSpec {
	k := fmt.Sprintf("%s/%d/%d", name, out, inj)
	engMu.Lock()
	defer engMu.Unlock()
	if s, ok := spGEN[k]; ok {
		return s
	}
	s := &fnSpec{name: k, out: out, inj: inj, real: func(a [][]byte) []byte {
		var r []byte
		for i := 0; len(r) < out; i++ {
			h := sha256.New()
			fmt.Fprintf(h, "%s|%d|", name, i)
			for _, x := range a {
				fmt.Fprintf(h, "%d:", len(x))
				h.Write(x)
			}
			r = h.Sum(r)
		}
		return r[:out]
	}}
	spGEN[k] = s
	return s
}

func allConst(ts []*Term) bool {
	for _, t := range ts {
		if !t.isConst() {
			return false
		}
	}
	return true
}

func constBytes(ts []*Term) []byte {
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.val)
	}
	return b
}

func appKeyOf(name string, args [][]*Term) string {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", len(a))
		for _, t := range a {
			fmt.Fprintf(&sb, ",%d", t.id)
		}
	}
	return sb.String()
}

// apply returns the output bytes of spec(args).
func (ex *Exec) apply(sp *fnSpec, args ...[]*Term) []*Term {
	conc := true
	for _, a := range args {
		if !allConst(a) {
			conc = false
		}
	}
	k := appKeyOf(sp.name, args)
	if a, ok := ex.appKey[k]; ok {
		return a.outs
	}
	a := &App{spec: sp, args: args, id: len(ex.apps)}
	ex.apps = append(ex.apps, a)
	ex.appKey[k] = a
	if conc {
		bs := make([][]byte, len(args))
		for i := range args {
			bs[i] = constBytes(args[i])
		}
		a.outs = terms(ex.bytesVal(sp.real(bs)))
	} else {
		a.outs = make([]*Term, sp.out)
		for i := range a.outs {
			a.outs[i] = ex.newVar(8)
			a.outs[i].app = a
		}
	}
	if sp.perm {
		// index by output as well
		ok := appKeyOf(sp.name+"^-1", append(append([][]*Term(nil), args[:len(args)-1]...), a.outs))
		ex.appKey[ok] = a
	}
	return a.outs
}

// applyInv returns x with spec(args[:n-1], x) = y.
func (ex *Exec) applyInv(sp *fnSpec, y []*Term, pre ...[]*Term) []*Term {
	k := appKeyOf(sp.name+"^-1", append(append([][]*Term(nil), pre...), y))
	if a, ok := ex.appKey[k]; ok {
		return a.args[len(a.args)-1]
	}
	conc := allConst(y)
	for _, a := range pre {
		conc = conc && allConst(a)
	}
	a := &App{spec: sp, outs: y, id: len(ex.apps), inverse: true}
	ex.apps = append(ex.apps, a)
	var x []*Term
	if conc {
		bs := make([][]byte, 0)
		for _, p := range pre {
			bs = append(bs, constBytes(p))
		}
		x = terms(ex.bytesVal(sp.inv(append(bs, constBytes(y)))))
	} else {
		x = make([]*Term, len(y))
		for i := range x {
			x[i] = ex.newVar(8)
			x[i].app = a
		}
	}
	a.args = append(append([][]*Term(nil), pre...), x)
	ex.appKey[k] = a
	ex.appKey[appKeyOf(sp.name, a.args)] = a
	return x
}

// x25519 public key and agreement
func (ex *Exec) dhPub(priv []*Term) []*Term { return ex.apply(spPUB, priv) }

func (ex *Exec) dh(priv, pub []*Term) []*Term {
	// the public key of every private key used exists as a term (needed for commutativity)
	mypub := ex.dhPub(priv)
	if allConst(pub) && allConst(priv) {
		return ex.apply(spDH, priv, pub)
	}
	// canonical form when pub is syntactically the public key of a known private key
	for _, a := range ex.apps {
		if a.spec == spPUB && sameTerms(a.outs, pub) {
			if o, ok := ex.appKey[appKeyOf(spDH.name, [][]*Term{a.args[0], mypub})]; ok {
				return o.outs
			}
			break
		}
	}
	return ex.apply(spDH, priv, pub)
}

// crossTerm: the two agreements are mirror images of each other.
func (ex *Exec) crossTerm(a, b *App) *Term {
	pa, pb := ex.appKey[appKeyOf(spPUB.name, a.args[:1])], ex.appKey[appKeyOf(spPUB.name, b.args[:1])]
	if pa == nil || pb == nil {
		return ex.c.F
	}
	return ex.c.And(ex.bytesEq(a.args[1], pb.outs), ex.bytesEq(b.args[1], pa.outs))
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// evalApp computes the fresh side of an application in a model (consistently
// with applications that already have values there).
func (ex *Exec) evalApp(a *App, model map[*Term]uint64, get func(*Term) uint64) {
	ev := func(ts []*Term) []byte {
		b := make([]byte, len(ts))
		for i, t := range ts {
			b[i] = byte(ex.c.Eval(t, get))
		}
		return b
	}
	var fresh []*Term
	var res []byte
	ix := ex.evalIndex(model)
	ex.scanIndex(ix, a.id, model, ev)
	if a.inverse {
		fresh = a.args[len(a.args)-1]
		pre := a.args[:len(a.args)-1]
		var in [][]byte
		for _, x := range pre {
			in = append(in, ev(x))
		}
		in = append(in, ev(a.outs))
		if e, ok := ix.byOut[evKey(a.spec, in)]; ok && e.id < a.id {
			res = e.val
		} else {
			res = a.spec.inv(in)
		}
	} else {
		fresh = a.outs
		var in [][]byte
		for _, x := range a.args {
			in = append(in, ev(x))
		}
		if e, ok := ix.byArg[evKey(a.spec, in)]; ok && e.id < a.id {
			res = e.val
		} else {
			res = a.spec.real(in)
		}
	}
	for i, t := range fresh {
		if t.op == OpVar && t.app == a {
			if _, ok := model[t]; !ok {
				model[t] = uint64(res[i])
			}
		}
	}
	ex.indexApp(ix, a, ev)
}

// An evalIdx finds applications by the values of their arguments (or outputs)
// in one model, so that evaluating an application agrees with earlier ones.
type evalIdx struct {
	model        map[*Term]uint64
	upto         int
	byArg, byOut map[string]evalEnt
}

type evalEnt struct {
	id  int
	val []byte
}

func evKey(sp *fnSpec, in [][]byte) string {
	n := len(sp.name) + 1
	for _, b := range in {
		n += len(b) + 4
	}
	k := make([]byte, 0, n)
	k = append(k, sp.name...)
	for _, b := range in {
		k = append(k, '|', byte(len(b)), byte(len(b)>>8), byte(len(b)>>16))
		k = append(k, b...)
	}
	return string(k)
}

func (ex *Exec) evalIndex(model map[*Term]uint64) *evalIdx {
	p := reflect.ValueOf(model).Pointer()
	for i, ix := range ex.evalIdxs {
		if reflect.ValueOf(ix.model).Pointer() == p {
			if i > 0 {
				ex.evalIdxs[0], ex.evalIdxs[i] = ex.evalIdxs[i], ex.evalIdxs[0]
			}
			return ix
		}
	}
	ix := &evalIdx{model: model, byArg: map[string]evalEnt{}, byOut: map[string]evalEnt{}}
	ex.evalIdxs = append([]*evalIdx{ix}, ex.evalIdxs...)
	if len(ex.evalIdxs) > 3 {
		ex.evalIdxs = ex.evalIdxs[:3]
	}
	return ix
}

// scanIndex enters the applications before id whose own values the model has.
func (ex *Exec) scanIndex(ix *evalIdx, id int, model map[*Term]uint64, ev func([]*Term) []byte) {
	for ix.upto < id && ix.upto < len(ex.apps) {
		b := ex.apps[ix.upto]
		ix.upto++
		own := b.outs
		if b.inverse {
			own = b.args[len(b.args)-1]
		}
		have := true
		for _, t := range own {
			if t.op == OpVar && t.app == b {
				if _, ok := model[t]; !ok {
					have = false
					break
				}
			}
		}
		if have {
			ex.indexApp(ix, b, ev)
		}
	}
}

func (ex *Exec) indexApp(ix *evalIdx, b *App, ev func([]*Term) []byte) {
	var in [][]byte
	for _, x := range b.args {
		in = append(in, ev(x))
	}
	out := ev(b.outs)
	put := func(m map[string]evalEnt, k string, v []byte) {
		if e, ok := m[k]; !ok || e.id > b.id {
			m[k] = evalEnt{b.id, v}
		}
	}
	put(ix.byArg, evKey(b.spec, in), out)
	if b.spec.inv != nil {
		last := in[len(in)-1]
		in[len(in)-1] = out
		put(ix.byOut, evKey(b.spec, in), last)
	}
}

// checkAxioms completes the solver's values to a candidate model and returns violated axiom instances.
func (ex *Exec) checkAxioms(vals map[*Term]uint64) []*Term {
	if len(ex.apps) == 0 {
		return nil
	}
	active := map[*App]bool{}
	for v := range vals {
		if v.app != nil {
			active[v.app] = true
		}
	}
	c := ex.c
	c.gen++
	var get func(*Term) uint64
	get = func(v *Term) uint64 {
		if x, ok := vals[v]; ok {
			return x
		}
		if v.app != nil {
			ex.evalApp(v.app, vals, get)
			return vals[v]
		}
		return 0
	}
	ev := func(ts []*Term) string {
		b := make([]byte, len(ts))
		for i, t := range ts {
			b[i] = byte(c.Eval(t, get))
		}
		return string(b)
	}
	var lem []*Term
	add := func(t *Term) {
		if t == c.T {
			return
		}
		if len(lem) < 64 {
			lem = append(lem, t)
		}
	}
	type rec struct {
		a         *App
		args, out string
	}
	bySpec := map[*fnSpec][]rec{}
	for _, a := range ex.apps {
		var as []string
		for _, x := range a.args {
			as = append(as, fmt.Sprintf("%d:", len(x))+ev(x))
		}
		bySpec[a.spec] = append(bySpec[a.spec], rec{a, strings.Join(as, ""), ev(a.outs)})
	}
	argsEq := func(a, b *App) *Term {
		if len(a.args) != len(b.args) {
			return c.F
		}
		r := c.T
		for i := range a.args {
			r = c.And(r, ex.bytesEq(a.args[i], b.args[i]))
		}
		return r
	}
	for sp, rs := range bySpec {
		byArgs := map[string]rec{}
		byOut := map[string]rec{}
		for _, r := range rs {
			if o, ok := byArgs[r.args]; ok {
				if o.out != r.out {
					add(c.Or(c.Not(argsEq(o.a, r.a)), ex.bytesEq(o.a.outs, r.a.outs)))
				}
			} else {
				byArgs[r.args] = r
			}
			if sp.inj > 0 {
				k := r.out[:sp.inj]
				if o, ok := byOut[k]; ok {
					imp := argsEq(o.a, r.a)
					if sp == spDH {
						imp = c.Or(imp, ex.crossTerm(o.a, r.a))
					}
					if o.args != r.args && c.Eval(imp, get) == 0 {
						add(c.Or(c.Not(ex.bytesEq(o.a.outs[:sp.inj], r.a.outs[:sp.inj])), imp))
					}
				} else {
					byOut[k] = r
				}
			}
			if sp.perm {
				// same key and same output -> same input
				pre := len(r.a.args) - 1
				kb := ""
				for _, x := range r.a.args[:pre] {
					kb += fmt.Sprintf("%d:", len(x)) + ev(x)
				}
				k := kb + "#" + r.out
				if o, ok := byOut[k]; ok {
					if o.args != r.args {
						keq := c.T
						for i := 0; i < pre; i++ {
							keq = c.And(keq, ex.bytesEq(o.a.args[i], r.a.args[i]))
						}
						add(c.Or(c.Not(keq), c.Not(ex.bytesEq(o.a.outs, r.a.outs)), ex.bytesEq(o.a.args[pre], r.a.args[pre])))
					}
				} else {
					byOut[k] = r
				}
			}
		}
		if sp == spDH {
			for i, x := range rs {
				for _, y := range rs[:i] {
					if x.out == y.out || x.args == y.args {
						continue
					}
					ct := ex.crossTerm(x.a, y.a)
					if c.Eval(ct, get) == 1 {
						add(c.Or(c.Not(ct), ex.bytesEq(x.a.outs, y.a.outs)))
					}
				}
			}
		}
	}
	return lem
}
