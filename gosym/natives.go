package main

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/rand"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var natives = map[string]nativeFunc{}

func def(names string, f nativeFunc) {
	for _, n := range strings.Fields(names) {
		natives[n] = f
	}
}

// A native may decline a call; the function's own code then runs.
type declinedT struct{ _ int }

var declined Value = &declinedT{}

func defOpt(name string, f func(ex *Exec, a []Value) (Value, bool)) {
	natives[name] = func(ex *Exec, a []Value) Value {
		if v, ok := f(ex, a); ok {
			return v
		}
		return declined
	}
}

func nop(ex *Exec, a []Value) Value { return nil }

func bs(v Value) []*Term {
	switch v := v.(type) {
	case Slice:
		return terms(v)
	case Array:
		return terms(v)
	case *Value:
		return terms((*v).(Array))
	}
	panic(fmt.Sprintf("bs %T", v))
}

// ---- hash objects ----
type hashSt struct {
	sp    *fnSpec
	key   []*Term
	hm    bool
	buf   []*Term
	block int
}

func (ex *Exec) hashSum(h *hashSt) []*Term {
	if h.hm {
		return ex.apply(h.sp, h.key, h.buf)
	}
	return ex.apply(h.sp, h.buf)
}

func newHash(sp *fnSpec, block int) nativeFunc {
	return func(ex *Exec, a []Value) Value {
		return ex.nativeIface("hash", &hashSt{sp: sp, block: block})
	}
}

func sumArr(sp *fnSpec) nativeFunc {
	return func(ex *Exec, a []Value) Value { return Array(fromTerms(ex.apply(sp, bs(a[0])))) }
}

func (ex *Exec) hashFnOf(v Value) (*fnSpec, int) {
	if f, ok := v.(*ssa.Function); ok {
		switch f.String() {
		case "crypto/sha256.New":
			return spHMAC256, 64
		case "crypto/sha1.New":
			return spHMAC1, 64
		case "crypto/sha512.New":
			return spHMAC512, 128
		}
		ex.unsupported("hmac over %s", f)
	}
	if c, ok := v.(*Closure); ok {
		ex.unsupported("hmac over closure %s", c.fn)
	}
	ex.unsupported("hmac over %T", v)
	return nil, 0
}

// ---- block ciphers ----
type blockSt struct{ key []*Term }
type cbcSt struct {
	b   *blockSt
	iv  []*Term
	dec bool
}
type ctrSt struct {
	b   *blockSt
	ctr []*Term
	ks  []*Term
}
type aeadSt struct {
	b          *blockSt
	tag, nonce int
}

func xorT(c *Ctx, a, b []*Term) []*Term {
	out := make([]*Term, len(a))
	for i := range a {
		out[i] = c.bin(OpXor, a[i], b[i])
	}
	return out
}

func (ex *Exec) aesEnc(b *blockSt, x []*Term) []*Term { return ex.apply(spAES, b.key, x) }
func (ex *Exec) aesDec(b *blockSt, y []*Term) []*Term { return ex.applyInv(spAES, y, b.key) }

func (ex *Exec) libPanic(msg string) {
	panic(&goPanic{v: Iface{types.Typ[types.String], str(msg)}, msg: msg, where: ex.where()})
}

func setBytes(dst Slice, src []*Term) {
	for i, t := range src {
		dst[i] = t
	}
}

var spGCMTag = reg(&fnSpec{name: "GCM", out: 16, inj: 8, real: func(a [][]byte) []byte {
	// key, nonce, aad, ciphertext
	blk, err := aes.NewCipher(a[0])
	if err != nil {
		return make([]byte, 16)
	}
	if len(a[1]) == 0 {
		return make([]byte, 16)
	}
	g, err := cipher.NewGCMWithNonceSize(blk, len(a[1]))
	if err != nil {
		return make([]byte, 16)
	}
	// recover the plaintext: keystream = seal of zeros
	z := g.Seal(nil, a[1], make([]byte, len(a[3])), nil)
	pt := make([]byte, len(a[3]))
	for i := range pt {
		pt[i] = z[i] ^ a[3][i]
	}
	o := g.Seal(nil, a[1], pt, a[2])
	return o[len(pt):]
}})

func (ex *Exec) gcmKS(b *blockSt, nonce []*Term, n int) []*Term {
	var ks []*Term
	for i := 0; len(ks) < n; i++ {
		ctr := []*Term{}
		if len(nonce) == 12 {
			ctr = append(ctr, nonce...)
			for k := 3; k >= 0; k-- {
				ctr = append(ctr, ex.c.bytes[byte((i+2)>>(8*k))])
			}
			ks = append(ks, ex.aesEnc(b, ctr)...)
		} else {
			ks = append(ks, ex.apply(genSpec("gcmks", 16, 0), b.key, nonce, []*Term{ex.c.bytes[byte(i)]})...)
		}
	}
	return ks[:n]
}

func (ex *Exec) appendTo(dst Value, b []*Term) Slice {
	d, _ := dst.(Slice)
	// append semantics: reuse capacity when available
	if cap(d)-len(d) >= len(b) && cap(d) > 0 {
		full := d[:len(d)+len(b)]
		setBytes(full[len(d):], b)
		return full
	}
	return append(append(Slice{}, d...), fromTerms(b)...)
}

type nmeth func(ex *Exec, n *Native, a []Value) Value

var nativeMeths map[string]map[string]nmeth

func (ex *Exec) nativeMethod(n *Native, name string, a []Value) Value {
	if m, ok := nativeMeths[n.kind][name]; ok {
		return m(ex, n, a)
	}
	ex.unsupported("method %s of native %s", name, n.kind)
	return nil
}

func nativeHas(kind, name string) bool {
	_, ok := nativeMeths[kind][name]
	return ok
}

// freshRand models a read of cryptographic randomness. Draws of 16 bytes or
// more never repeat: bytes 3..8 of each are constants of their own, every other
// byte is free.
func (ex *Exec) freshRand(name string, n int) []*Term {
	r := ex.nondet(name, "rand", 8, n)
	if ex.freeDraws {
		return r.Terms
	}
	if n == 4 && ex.drawMask != 0 {
		// the harness fixes some bits of short draws
		for i := range r.Terms {
			m, v := ex.drawMask>>(24-8*i)&0xff, ex.drawVal>>(24-8*i)&0xff
			if m != 0 {
				r.Terms[i] = ex.c.bin(OpBOr, ex.c.bin(OpBAnd, r.Terms[i], ex.c.Const(^m&0xff, 8)), ex.c.Const(m&v, 8))
				if m == 0xff {
					r.Terms[i] = ex.c.Const(v, 8)
				}
			}
		}
		return r.Terms
	}
	if ex.h.FixedRand {
		ex.ndraw++
		for i := range r.Terms {
			h := sha256.Sum256([]byte(fmt.Sprintf("fixed %d %d", ex.ndraw, i)))
			r.Terms[i] = ex.c.Const(uint64(h[0]), 8)
		}
	} else if n >= 16 {
		ex.ndraw++
		tag := sha256.Sum256([]byte(fmt.Sprintf("draw %d", ex.ndraw)))
		for i := 3; i < 9; i++ {
			r.Terms[i] = ex.c.Const(uint64(tag[i]), 8)
		}
	}
	return r.Terms
}

func init() {
	nativeMeths = map[string]map[string]nmeth{
		"hash": {
			"Write": func(ex *Exec, n *Native, a []Value) Value {
				h := n.data.(*hashSt)
				b := bs(a[0])
				h.buf = append(append([]*Term(nil), h.buf...), b...)
				return Tuple{ex.intV(len(b)), nilErr()}
			},
			"Sum": func(ex *Exec, n *Native, a []Value) Value {
				return ex.appendTo(a[0], ex.hashSum(n.data.(*hashSt)))
			},
			"Reset":     func(ex *Exec, n *Native, a []Value) Value { n.data.(*hashSt).buf = nil; return nil },
			"Size":      func(ex *Exec, n *Native, a []Value) Value { return ex.intV(n.data.(*hashSt).sp.out) },
			"BlockSize": func(ex *Exec, n *Native, a []Value) Value { return ex.intV(n.data.(*hashSt).block) },
		},
		"block": {
			"BlockSize": func(ex *Exec, n *Native, a []Value) Value { return ex.intV(16) },
			"Encrypt": func(ex *Exec, n *Native, a []Value) Value {
				s := bs(a[1])
				if len(s) < 16 || len(a[0].(Slice)) < 16 {
					ex.libPanic("crypto/aes: input not full block")
				}
				setBytes(a[0].(Slice), ex.aesEnc(n.data.(*blockSt), s[:16]))
				return nil
			},
			"Decrypt": func(ex *Exec, n *Native, a []Value) Value {
				s := bs(a[1])
				if len(s) < 16 || len(a[0].(Slice)) < 16 {
					ex.libPanic("crypto/aes: input not full block")
				}
				setBytes(a[0].(Slice), ex.aesDec(n.data.(*blockSt), s[:16]))
				return nil
			},
		},
		"cbc": {
			"BlockSize": func(ex *Exec, n *Native, a []Value) Value { return ex.intV(16) },
			"CryptBlocks": func(ex *Exec, n *Native, a []Value) Value {
				m := n.data.(*cbcSt)
				dst, src := a[0].(Slice), bs(a[1])
				if len(src)%16 != 0 {
					ex.libPanic("crypto/cipher: input not full blocks")
				}
				if len(dst) < len(src) {
					ex.libPanic("crypto/cipher: output smaller than input")
				}
				for i := 0; i < len(src); i += 16 {
					blk := append([]*Term(nil), src[i:i+16]...)
					if m.dec {
						setBytes(dst[i:], xorT(ex.c, ex.aesDec(m.b, blk), m.iv))
						m.iv = blk
					} else {
						o := ex.aesEnc(m.b, xorT(ex.c, blk, m.iv))
						setBytes(dst[i:], o)
						m.iv = o
					}
				}
				return nil
			},
		},
		"ctr": {
			"XORKeyStream": func(ex *Exec, n *Native, a []Value) Value {
				m := n.data.(*ctrSt)
				dst, src := a[0].(Slice), bs(a[1])
				if len(dst) < len(src) {
					ex.libPanic("crypto/cipher: output smaller than input")
				}
				for i := range src {
					if len(m.ks) == 0 {
						m.ks = ex.aesEnc(m.b, m.ctr)
						v := ex.c.T
						_ = v
						carry := ex.c.bytes[1]
						nc := append([]*Term(nil), m.ctr...)
						for k := 15; k >= 0; k-- {
							s := ex.c.bin(OpAdd, ex.c.Zext(nc[k], 16), ex.c.Zext(carry, 16))
							nc[k] = ex.c.Extract(s, 7, 0)
							carry = ex.c.Extract(s, 15, 8)
						}
						m.ctr = nc
					}
					dst[i] = ex.c.bin(OpXor, src[i], m.ks[0])
					m.ks = m.ks[1:]
				}
				return nil
			},
		},
		"aead": {
			"NonceSize": func(ex *Exec, n *Native, a []Value) Value { return ex.intV(n.data.(*aeadSt).nonce) },
			"Overhead":  func(ex *Exec, n *Native, a []Value) Value { return ex.intV(n.data.(*aeadSt).tag) },
			"Seal": func(ex *Exec, n *Native, a []Value) Value {
				m := n.data.(*aeadSt)
				nonce, pt, aad := bs(a[1]), bs(a[2]), bs(a[3])
				if len(nonce) != m.nonce {
					ex.libPanic("crypto/cipher: incorrect nonce length given to GCM")
				}
				ct := xorT(ex.c, pt, ex.gcmKS(m.b, nonce, len(pt)))
				tag := ex.apply(spGCMTag, m.b.key, nonce, aad, ct)[:m.tag]
				return ex.appendTo(a[0], append(append([]*Term(nil), ct...), tag...))
			},
			"Open": func(ex *Exec, n *Native, a []Value) Value {
				m := n.data.(*aeadSt)
				nonce, ct, aad := bs(a[1]), bs(a[2]), bs(a[3])
				if len(nonce) != m.nonce {
					ex.libPanic("crypto/cipher: incorrect nonce length given to GCM")
				}
				fail := Tuple{Slice(nil), ex.mkError("cipher: message authentication failed")}
				if len(ct) < m.tag {
					return fail
				}
				tag := ct[len(ct)-m.tag:]
				ct = ct[:len(ct)-m.tag]
				want := ex.apply(spGCMTag, m.b.key, nonce, aad, ct)[:m.tag]
				if !ex.branch(ex.bytesEq(tag, want)) {
					return fail
				}
				return Tuple{ex.appendTo(a[0], xorT(ex.c, ct, ex.gcmKS(m.b, nonce, len(ct)))), nilErr()}
			},
		},
		"gcmsiv": {
			"Seal": nil,
		},
		"randReader": {
			"Read": func(ex *Exec, n *Native, a []Value) Value {
				d := a[0].(Slice)
				setBytes(d, ex.freshRand("rand", len(d)))
				return Tuple{ex.intV(len(d)), nilErr()}
			},
		},
		"rtype": {
			"Elem": func(ex *Exec, n *Native, a []Value) Value { return ex.nativeIface("rtype", nil) },
		},
		"devnull": {
			"Write":       func(ex *Exec, n *Native, a []Value) Value { return Tuple{ex.intV(len(bs(a[0]))), nilErr()} },
			"WriteString": func(ex *Exec, n *Native, a []Value) Value { return Tuple{ex.intV(a[0].(Str).Len()), nilErr()} },
			"Read": func(ex *Exec, n *Native, a []Value) Value {
				return Tuple{ex.intV(0), *(ex.global(ex.p.pkgs["io"].Var("EOF")).(*Value))}
			},
			"Close": func(ex *Exec, n *Native, a []Value) Value { return nilErr() },
		},
	}
	delete(nativeMeths, "gcmsiv")

	def("internal/reflectlite.TypeOf reflect.TypeOf", func(ex *Exec, a []Value) Value { return ex.nativeIface("rtype", nil) })
	// hashes
	def("crypto/sha256.New", newHash(spSHA256, 64))
	def("crypto/sha1.New", newHash(spSHA1, 64))
	def("crypto/sha512.New", newHash(spSHA512, 128))
	def("crypto/md5.New", newHash(spMD5, 64))
	def("crypto/sha256.Sum256", sumArr(spSHA256))
	def("crypto/sha1.Sum", sumArr(spSHA1))
	def("crypto/sha512.Sum512", sumArr(spSHA512))
	def("crypto/md5.Sum", sumArr(spMD5))
	def("crypto/hmac.New", func(ex *Exec, a []Value) Value {
		sp, bl := ex.hashFnOf(a[0])
		return ex.nativeIface("hash", &hashSt{sp: sp, hm: true, key: bs(a[1]), block: bl})
	})
	eqBytes := func(ex *Exec, a []Value) Value { return ex.bytesEq(bs(a[0]), bs(a[1])) }
	def("crypto/hmac.Equal bytes.Equal", eqBytes)
	def("crypto/subtle.ConstantTimeCompare", func(ex *Exec, a []Value) Value {
		return ex.c.Ite(ex.bytesEq(bs(a[0]), bs(a[1])), ex.intV(1), ex.intV(0))
	})
	def("crypto/rand.Read", func(ex *Exec, a []Value) Value {
		d := a[0].(Slice)
		setBytes(d, ex.freshRand("rand", len(d)))
		return Tuple{ex.intV(len(d)), nilErr()}
	})
	// ciphers
	def("crypto/aes.NewCipher", func(ex *Exec, a []Value) Value {
		k := bs(a[0])
		if len(k) != 16 && len(k) != 24 && len(k) != 32 {
			return Tuple{Iface{}, ex.mkError(fmt.Sprintf("crypto/aes: invalid key size %d", len(k)))}
		}
		return Tuple{ex.nativeIface("block", &blockSt{k}), nilErr()}
	})
	blk := func(ex *Exec, v Value) *blockSt {
		iv := v.(Iface)
		if iv.t == nil {
			ex.nilDeref()
		}
		n, ok := iv.v.(*Native)
		if !ok {
			ex.unsupported("foreign block cipher")
		}
		return n.data.(*blockSt)
	}
	cbc := func(dec bool) nativeFunc {
		return func(ex *Exec, a []Value) Value {
			b := blk(ex, a[0])
			iv := bs(a[1])
			if len(iv) != 16 {
				ex.libPanic("cipher.NewCBC: IV length must equal block size")
			}
			return ex.nativeIface("cbc", &cbcSt{b: b, iv: append([]*Term(nil), iv...), dec: dec})
		}
	}
	def("crypto/cipher.NewCBCEncrypter", cbc(false))
	def("crypto/cipher.NewCBCDecrypter", cbc(true))
	def("crypto/cipher.NewCTR", func(ex *Exec, a []Value) Value {
		b := blk(ex, a[0])
		iv := bs(a[1])
		if len(iv) != 16 {
			ex.libPanic("cipher.NewCTR: IV length must equal block size")
		}
		return ex.nativeIface("ctr", &ctrSt{b: b, ctr: append([]*Term(nil), iv...)})
	})
	def("crypto/cipher.NewGCM", func(ex *Exec, a []Value) Value {
		return Tuple{ex.nativeIface("aead", &aeadSt{blk(ex, a[0]), 16, 12}), nilErr()}
	})
	def("crypto/cipher.NewGCMWithTagSize", func(ex *Exec, a []Value) Value {
		t := ex.concInt(a[1])
		if t < 12 || t > 16 {
			return Tuple{Iface{}, ex.mkError("cipher: incorrect tag size given to GCM")}
		}
		return Tuple{ex.nativeIface("aead", &aeadSt{blk(ex, a[0]), t, 12}), nilErr()}
	})
	def("crypto/cipher.NewGCMWithNonceSize", func(ex *Exec, a []Value) Value {
		return Tuple{ex.nativeIface("aead", &aeadSt{blk(ex, a[0]), 16, ex.concInt(a[1])}), nilErr()}
	})
	// X25519
	clamp := func(ex *Exec, p []*Term) []*Term {
		o := append([]*Term(nil), p...)
		o[0] = ex.c.bin(OpBAnd, o[0], ex.c.bytes[248])
		o[31] = ex.c.bin(OpBOr, ex.c.bin(OpBAnd, o[31], ex.c.bytes[127]), ex.c.bytes[64])
		return o
	}
	def("golang.org/x/crypto/curve25519.ScalarBaseMult", func(ex *Exec, a []Value) Value {
		r := Array(fromTerms(ex.dhPub(clamp(ex, bs(a[1])))))
		ex.store(a[0].(*Value), r)
		return nil
	})
	def("golang.org/x/crypto/curve25519.ScalarMult", func(ex *Exec, a []Value) Value {
		r := Array(fromTerms(ex.dh(clamp(ex, bs(a[1])), bs(a[2]))))
		ex.store(a[0].(*Value), r)
		return nil
	})
	def("golang.org/x/crypto/curve25519.X25519", func(ex *Exec, a []Value) Value {
		s, p := bs(a[0]), bs(a[1])
		if len(s) != 32 || len(p) != 32 {
			return Tuple{Slice(nil), ex.mkError("bad scalar or point length")}
		}
		return Tuple{fromTerms(ex.dh(clamp(ex, s), p)), nilErr()}
	})
	def("golang.org/x/crypto/pbkdf2.Key", func(ex *Exec, a []Value) Value {
		n := ex.concInt(a[3])
		return fromTerms(ex.apply(genSpec("pbkdf2", n, 0), bs(a[0]), bs(a[1])))
	})
	// math/rand: one weak stream per execution
	// and seed: seeding again repeats it
	weak := func(ex *Exec, w uint8) *Term {
		k := weakKey{ex.weakSeed, ex.weakPos, w}
		ex.weakPos++
		t := ex.weakDraws[k]
		if t == nil {
			t = ex.newVar(w)
			ex.weak[t] = true
			if ex.weakDraws == nil {
				ex.weakDraws = map[weakKey]*Term{}
			}
			ex.weakDraws[k] = t
		}
		return t
	}
	def("math/rand.Seed", func(ex *Exec, a []Value) Value {
		ex.weakSeed, ex.weakPos = a[0].(*Term), 0
		return nil
	})
	def("math/rand.Int63", func(ex *Exec, a []Value) Value { return ex.c.Zext(weak(ex, 63), 64) })
	def("math/rand.Int31", func(ex *Exec, a []Value) Value { return ex.c.Zext(weak(ex, 31), 32) })
	def("math/rand.Int", func(ex *Exec, a []Value) Value { return ex.c.Zext(weak(ex, 63), 64) })
	def("math/rand.Uint32", func(ex *Exec, a []Value) Value { return weak(ex, 32) })
	def("math/rand.Uint64", func(ex *Exec, a []Value) Value { return weak(ex, 64) })
	intn := func(ex *Exec, a []Value) Value {
		n := a[0].(*Term)
		if !ex.branch(ex.c.Cmp(OpSlt, ex.c.Const(0, n.w), n)) {
			ex.libPanic("invalid argument to Intn")
		}
		t := weak(ex, n.w)
		ex.assume(ex.c.Cmp(OpUlt, t, n))
		return t
	}
	def("math/rand.Intn math/rand.Int63n math/rand.Int31n", intn)
	def("math/rand.Read", func(ex *Exec, a []Value) Value {
		d := a[0].(Slice)
		for i := range d {
			d[i] = weak(ex, 8)
		}
		return Tuple{ex.intV(len(d)), nilErr()}
	})
	_ = rand.Int
	// fmt
	def("fmt.Sprintf", func(ex *Exec, a []Value) Value { return ex.sprintf(a[0].(Str), a[1].(Slice)) })
	def("strconv.FormatInt", func(ex *Exec, a []Value) Value {
		return ex.fmtInt(a[0].(*Term), true, int(ex.concretize(a[1].(*Term))))
	})
	def("strconv.FormatUint", func(ex *Exec, a []Value) Value {
		return ex.fmtInt(a[0].(*Term), false, int(ex.concretize(a[1].(*Term))))
	})
	symDec := func(s Str, base Value) bool {
		if base != nil && (!base.(*Term).isConst() || base.(*Term).val != 10) {
			return false
		}
		return s.b != nil
	}
	defOpt("strconv.ParseUint", func(ex *Exec, a []Value) (Value, bool) {
		if !symDec(a[0].(Str), a[1]) || !a[2].(*Term).isConst() {
			return nil, false
		}
		n := int(a[2].(*Term).val)
		if n == 0 {
			n = 64
		}
		v, err := parseNum(ex, "ParseUint", a[0].(Str), n, false)
		return Tuple{v, err}, true
	})
	defOpt("strconv.ParseInt", func(ex *Exec, a []Value) (Value, bool) {
		if !symDec(a[0].(Str), a[1]) || !a[2].(*Term).isConst() {
			return nil, false
		}
		n := int(a[2].(*Term).val)
		if n == 0 {
			n = 64
		}
		v, err := parseNum(ex, "ParseInt", a[0].(Str), n, true)
		return Tuple{v, err}, true
	})
	defOpt("strconv.Atoi", func(ex *Exec, a []Value) (Value, bool) {
		if !symDec(a[0].(Str), nil) {
			return nil, false
		}
		v, err := parseNum(ex, "Atoi", a[0].(Str), 64, true)
		return Tuple{v, err}, true
	})
	def("strconv.Itoa", func(ex *Exec, a []Value) Value { return ex.fmtInt(a[0].(*Term), true, 10) })
	def("fmt.Errorf", func(ex *Exec, a []Value) Value { return ex.errorf(a[0].(Str), a[1].(Slice)) })
	spr := func(ln bool) nativeFunc {
		return func(ex *Exec, a []Value) Value {
			out := Str{}
			prevStr := true
			for i, x := range a[0].(Slice) {
				iv := x.(Iface)
				_, isS := iv.v.(Str)
				if i > 0 && (ln || (!isS && !prevStr)) {
					out = ex.cat(out, str(" "))
				}
				prevStr = isS
				out = ex.cat(out, ex.fmtValue('v', "", iv.t, iv, 0))
			}
			if ln {
				out = ex.cat(out, str("\n"))
			}
			return out
		}
	}
	def("fmt.Sprint", spr(false))
	def("fmt.Sprintln", spr(true))
	def("fmt.Print fmt.Printf fmt.Println fmt.Fprint fmt.Fprintln", func(ex *Exec, a []Value) Value { return Tuple{ex.intV(0), nilErr()} })
	def("fmt.Fprintf", func(ex *Exec, a []Value) Value {
		s := ex.sprintf(a[1].(Str), a[2].(Slice))
		iv := a[0].(Iface)
		if n, ok := iv.v.(*Native); ok && n.kind == "devnull" {
			return Tuple{ex.intV(s.Len()), nilErr()}
		}
		return ex.invoke(iv, "Write", fromTerms(ex.strBytes(s)))
	})
	def("fmt.Sscanf", sscanf)
	// errors
	def("errors.Is", func(ex *Exec, a []Value) Value { return ex.c.Bool(ex.errorsIs(a[0].(Iface), a[1].(Iface))) })
	def("errors.As", func(ex *Exec, a []Value) Value {
		e := a[0].(Iface)
		tgt := a[1].(Iface)
		pt, ok := tgt.t.Underlying().(*types.Pointer)
		if !ok {
			ex.libPanic("errors: target must be a non-nil pointer")
		}
		for i := 0; i < 20 && e.t != nil; i++ {
			if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
				if ex.implements(e.t, it) {
					ex.store(tgt.v.(*Value), e)
					return ex.c.T
				}
			} else if types.Identical(e.t, pt.Elem()) {
				ex.store(tgt.v.(*Value), e.v)
				return ex.c.T
			}
			e = ex.errUnwrap(e)
		}
		return ex.c.F
	})
	// bytealg
	def("internal/bytealg.Equal", eqBytes)
	def("internal/bytealg.MakeNoZero", func(ex *Exec, a []Value) Value { return ex.makeSlice(types.Typ[types.Uint8], ex.concInt(a[0])) })
	idxByte := func(ex *Exec, b []*Term, x *Term) Value {
		for i, t := range b {
			if ex.branch(ex.c.Eq(t, x)) {
				return ex.intV(i)
			}
		}
		return ex.intV(-1)
	}
	def("internal/bytealg.IndexByte", func(ex *Exec, a []Value) Value { return idxByte(ex, bs(a[0]), a[1].(*Term)) })
	def("internal/bytealg.IndexByteString", func(ex *Exec, a []Value) Value {
		return idxByte(ex, ex.strBytes(a[0].(Str)), a[1].(*Term))
	})
	lastIdx := func(ex *Exec, b []*Term, x *Term) Value {
		for i := len(b) - 1; i >= 0; i-- {
			if ex.branch(ex.c.Eq(b[i], x)) {
				return ex.intV(i)
			}
		}
		return ex.intV(-1)
	}
	def("internal/bytealg.LastIndexByte", func(ex *Exec, a []Value) Value { return lastIdx(ex, bs(a[0]), a[1].(*Term)) })
	def("internal/bytealg.LastIndexByteString", func(ex *Exec, a []Value) Value {
		return lastIdx(ex, ex.strBytes(a[0].(Str)), a[1].(*Term))
	})
	cnt := func(ex *Exec, b []*Term, x *Term) Value {
		r := ex.intV(0)
		for _, t := range b {
			r = ex.c.bin(OpAdd, r, ex.c.Ite(ex.c.Eq(t, x), ex.intV(1), ex.intV(0)))
		}
		return r
	}
	def("internal/bytealg.Count", func(ex *Exec, a []Value) Value { return cnt(ex, bs(a[0]), a[1].(*Term)) })
	def("internal/bytealg.CountString", func(ex *Exec, a []Value) Value {
		return cnt(ex, ex.strBytes(a[0].(Str)), a[1].(*Term))
	})
	index := func(ex *Exec, h, n []*Term) Value {
		if len(n) == 0 {
			return ex.intV(0)
		}
		for i := 0; i+len(n) <= len(h); i++ {
			if ex.branch(ex.bytesEq(h[i:i+len(n)], n)) {
				return ex.intV(i)
			}
		}
		return ex.intV(-1)
	}
	def("bytes.Index", func(ex *Exec, a []Value) Value { return index(ex, bs(a[0]), bs(a[1])) })
	def("strings.Index", func(ex *Exec, a []Value) Value {
		return index(ex, ex.strBytes(a[0].(Str)), ex.strBytes(a[1].(Str)))
	})
	compare := func(ex *Exec, x, y []*Term) Value {
		return ex.c.Ite(ex.bytesEq(x, y), ex.intV(0), ex.c.Ite(ex.bytesLess(x, y), ex.intV(-1), ex.intV(1)))
	}
	def("bytes.Compare internal/bytealg.Compare", func(ex *Exec, a []Value) Value { return compare(ex, bs(a[0]), bs(a[1])) })
	def("strings.Compare internal/bytealg.CompareString", func(ex *Exec, a []Value) Value {
		return compare(ex, ex.strBytes(a[0].(Str)), ex.strBytes(a[1].(Str)))
	})
	// regexp
	def("regexp.MustCompile", func(ex *Exec, a []Value) Value {
		re := ex.constStr(a[0])
		if _, err := regexp.Compile(re); err != nil {
			ex.libPanic("regexp: Compile: " + err.Error())
		}
		return &Native{kind: "regexp", data: re}
	})
	def("regexp.Compile", func(ex *Exec, a []Value) Value {
		re := ex.constStr(a[0])
		if _, err := regexp.Compile(re); err != nil {
			return Tuple{(*Value)(nil), ex.mkError(err.Error())}
		}
		return Tuple{&Native{kind: "regexp", data: re}, nilErr()}
	})
	def("(*regexp.Regexp).MatchString", func(ex *Exec, a []Value) Value {
		return ex.regexMatch(a[0].(*Native).data.(string), a[1].(Str))
	})
	def("regexp.MatchString", func(ex *Exec, a []Value) Value {
		return Tuple{ex.regexMatch(ex.constStr(a[0]), a[1].(Str)), nilErr()}
	})
	// reflect
	def("reflect.DeepEqual", func(ex *Exec, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return ex.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return ex.c.F
		}
		return ex.deepEqual(x.t, x.v, y.v, 0)
	})
	// sort
	def("sort.Slice sort.SliceStable", func(ex *Exec, a []Value) Value {
		iv := a[0].(Iface)
		s := iv.v.(Slice)
		swap := func(i, j int) {
			x, y := copyVal(s[i]), copyVal(s[j])
			ex.store(&s[i], y)
			ex.store(&s[j], x)
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				fr, d := ex.curFr, ex.depth
				lt := ex.callValue(a[1], []Value{ex.intV(j), ex.intV(j - 1)}).(*Term)
				ex.curFr, ex.depth = fr, d
				if !ex.branch(lt) {
					break
				}
				swap(j, j-1)
			}
		}
		return nil
	})
	// runtime
	def("runtime.Caller", func(ex *Exec, a []Value) Value {
		return Tuple{ex.c.Const(0, 64), str("file.go"), ex.intV(1), ex.c.T}
	})
	def("runtime.FuncForPC", func(ex *Exec, a []Value) Value { return &Native{kind: "func"} })
	def("(*runtime.Func).Name", func(ex *Exec, a []Value) Value { return str("func") })
	def("runtime.Gosched", func(ex *Exec, a []Value) Value { ex.yieldPoint(); return nil })
	def("runtime.NumCPU runtime.GOMAXPROCS", func(ex *Exec, a []Value) Value { return ex.intV(4) })
	def("runtime.GC runtime.KeepAlive runtime.SetFinalizer", nop)
	def("internal/godebug.New", func(ex *Exec, a []Value) Value { return &Native{kind: "godebug"} })
	def("(*internal/godebug.Setting).Value", func(ex *Exec, a []Value) Value { return str("") })
	def("(*internal/godebug.Setting).IncNonDefault", nop)
	def("crypto/internal/boring.Unreachable crypto/internal/fips140only.Enforced", nop)
	def("strings.Clone", func(ex *Exec, a []Value) Value { return a[0] })
	def("internal/stringslite.Clone", func(ex *Exec, a []Value) Value { return a[0] })
	def("internal/abi.NoEscape internal/abi.Escape", func(ex *Exec, a []Value) Value { return a[0] })
	def("(*strings.Builder).copyCheck", nop)
	def("unicode/utf8.ValidString", func(ex *Exec, a []Value) Value {
		s := a[0].(Str)
		if s.b == nil {
			return ex.c.Bool(strings.ToValidUTF8(s.s, "\x00BAD") == s.s)
		}
		return ex.callNamedBody("unicode/utf8", "ValidString", a)
	})
}

// callNamedBody interprets the Go body although a native exists.
func (ex *Exec) callNamedBody(pkg, fn string, a []Value) Value {
	f := ex.p.pkgs[pkg].Func(fn)
	return ex.callBody(f, a)
}

func (ex *Exec) deepEqual(t types.Type, x, y Value, depth int) *Term {
	if depth > 30 {
		ex.unsupported("DeepEqual depth")
	}
	switch x := x.(type) {
	case Iface:
		yi := y.(Iface)
		if x.t == nil || yi.t == nil {
			return ex.c.Bool(x.t == nil && yi.t == nil)
		}
		if !types.Identical(x.t, yi.t) {
			return ex.c.F
		}
		return ex.deepEqual(x.t, x.v, yi.v, depth+1)
	case Struct:
		st := t.Underlying().(*types.Struct)
		r := ex.c.T
		for i := range x {
			r = ex.c.And(r, ex.deepEqual(st.Field(i).Type(), x[i], y.(Struct)[i], depth+1))
		}
		return r
	case Array:
		r := ex.c.T
		et := t.Underlying().(*types.Array).Elem()
		for i := range x {
			r = ex.c.And(r, ex.deepEqual(et, x[i], y.(Array)[i], depth+1))
		}
		return r
	case Slice:
		ys := y.(Slice)
		if (x == nil) != (ys == nil) || len(x) != len(ys) {
			return ex.c.F
		}
		r := ex.c.T
		et := t.Underlying().(*types.Slice).Elem()
		for i := range x {
			r = ex.c.And(r, ex.deepEqual(et, x[i], ys[i], depth+1))
		}
		return r
	case *Value:
		yp, ok := y.(*Value)
		if !ok {
			return ex.c.F
		}
		if x == nil || yp == nil {
			return ex.c.Bool(x == yp)
		}
		if x == yp {
			return ex.c.T
		}
		return ex.deepEqual(deref(t), *x, *yp, depth+1)
	case *Map:
		ym := y.(*Map)
		if x == nil || ym == nil {
			return ex.c.Bool(x == nil && ym == nil)
		}
		if x.n != ym.n {
			return ex.c.F
		}
		r := ex.c.T
		for _, e := range x.entries {
			f := ym.find(ex, e.k)
			if f == nil {
				return ex.c.F
			}
			r = ex.c.And(r, ex.deepEqual(x.vt, e.v, f.v, depth+1))
		}
		return r
	}
	return ex.equals(t, x, y)
}

// Sscanf with one %d verb (the only form the code uses).
func sscanf(ex *Exec, a []Value) Value {
	s, f := a[0].(Str), ex.constStr(a[1])
	args := a[2].(Slice)
	eof := func(msg string, n int) Value { return Tuple{ex.intV(n), ex.mkError(msg)} }
	if f != "%d" && f != "%09d" && f != "%9d" || len(args) != 1 {
		ex.unsupported("Sscanf %q", f)
	}
	iv := args[0].(Iface)
	p := iv.v.(*Value)
	b := ex.strBytes(s)
	c := ex.c
	i := 0
	for i < len(b) && ex.branch(c.Or(c.Eq(b[i], c.bytes[' ']), c.Eq(b[i], c.bytes['\t']))) {
		i++
	}
	if i >= len(b) {
		return eof("unexpected EOF", 0)
	}
	neg := false
	if ex.branch(c.Eq(b[i], c.bytes['-'])) {
		neg = true
		i++
	} else if ex.branch(c.Eq(b[i], c.bytes['+'])) {
		i++
	}
	w, signed := bitWidth(deref(iv.t).Underlying().(*types.Basic))
	if neg && !signed {
		return eof("expected integer", 0)
	}
	isDigit := func(t *Term) *Term {
		return c.And(c.Cmp(OpUle, c.bytes['0'], t), c.Cmp(OpUle, t, c.bytes['9']))
	}
	maxd := 19
	if f == "%9d" || f == "%09d" {
		maxd = 9
	}
	var ds []*Term
	for i < len(b) && len(ds) < maxd && ex.branch(isDigit(b[i])) {
		ds = append(ds, c.bin(OpSub, b[i], c.bytes['0']))
		i++
	}
	n := len(ds)
	v := ex.horner(ds)
	if n == 0 {
		return eof("expected integer", 0)
	}
	if i < len(b) && n == 19 && ex.branch(isDigit(b[i])) {
		return eof("integer overflow", 0)
	}
	if neg {
		v = c.Neg(v)
	}
	if w < 64 {
		var fit *Term
		if signed {
			fit = c.Eq(c.Sext(c.Extract(v, w-1, 0), 64), v)
		} else {
			fit = c.Eq(c.Zext(c.Extract(v, w-1, 0), 64), v)
		}
		if !ex.branch(fit) {
			return eof("integer overflow on token", 0)
		}
		if !signed {
			ex.fitsIn(v, w)
		}
		v = c.Extract(v, w-1, 0)
	}
	ex.store(p, v)
	return Tuple{ex.intV(1), nilErr()}
}

// horner is the value of decimal digits (at most 19).
func (ex *Exec) horner(ds []*Term) *Term {
	c := ex.c
	v := c.Const(0, 64)
	for i, d := range ds {
		dz := c.Zext(d, 64)
		if i == 0 {
			v = dz
		} else {
			v = c.bin(OpAdd, c.bin(OpMul, v, c.Const(10, 64)), dz)
		}
	}
	ex.side[hornerKey{v}] = ds
	return v
}

type hornerKey struct{ t *Term }

// knownDigits: t is (the low part of) a number that was read from digits.
func (ex *Exec) knownDigits(t *Term) []*Term {
	d, _ := ex.side[hornerKey{t}].([]*Term)
	return d
}

// fitsIn records that the number read from digits fits w bits.
func (ex *Exec) fitsIn(v *Term, w uint8) {
	if d, ok := ex.side[hornerKey{v}]; ok && w < 64 {
		ex.side[hornerKey{ex.c.Extract(v, w-1, 0)}] = d
	}
}

// parseNum: strconv.ParseInt and ParseUint of a symbolic string in base 10.
func parseNum(ex *Exec, name string, s Str, bits int, signed bool) (*Term, Value) {
	c := ex.c
	zero := c.Const(0, 64)
	bad := func(m string) (*Term, Value) { return zero, ex.mkError("strconv." + name + ": parsing: " + m) }
	b := ex.strBytes(s)
	neg := false
	if signed && len(b) > 0 {
		if ex.branch(c.Eq(b[0], c.bytes['-'])) {
			neg = true
			b = b[1:]
		} else if ex.branch(c.Eq(b[0], c.bytes['+'])) {
			b = b[1:]
		}
	}
	if len(b) == 0 {
		return bad("invalid syntax")
	}
	all := c.T
	var ds []*Term
	for _, t := range b {
		all = c.And(all, c.Cmp(OpUle, c.bytes['0'], t), c.Cmp(OpUle, t, c.bytes['9']))
		ds = append(ds, c.bin(OpSub, t, c.bytes['0']))
	}
	if !ex.branch(all) {
		return bad("invalid syntax")
	}
	for len(ds) > 19 {
		if !ex.branch(c.Eq(ds[0], c.Const(0, 8))) {
			if len(ds) == 20 && bits == 64 && !signed {
				ex.unsupported("20-digit number")
			}
			return bad("value out of range")
		}
		ds = ds[1:]
	}
	v := ex.horner(ds)
	lim := uint64(1)<<(bits-1)*2 - 1
	if signed {
		lim = uint64(1)<<(bits-1) - 1
		if neg {
			lim++
		}
	}
	if lim != ^uint64(0) && !ex.branch(c.Cmp(OpUle, v, c.Const(lim, 64))) {
		return bad("value out of range")
	}
	for _, w := range []uint8{8, 16, 32} {
		if int(w) >= bits {
			ex.fitsIn(v, w)
		}
	}
	if neg {
		v = c.Neg(v)
	}
	return v, nilErr()
}
