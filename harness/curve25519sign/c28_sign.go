package curve25519sign

import "golang.org/x/crypto/curve25519"

// C28: signing and verifying.

func vfKey(name string) (priv, pub [32]byte) {
	copy(priv[:], vfBytes(name, 32))
	priv[0] &= 248
	priv[31] &= 63
	priv[31] |= 64
	curve25519.ScalarBaseMult(&pub, &priv)
	return
}

// A signature verifies under the matching key, twice over, and verification
// changes neither the signature nor the message.
func VC28_SignVerify() {
	n := []int{0, 1, 33, 100, 200, 300, 1025}[vfChoose("len", 7)]
	priv, pub := vfKey("priv")
	msg := vfBytes("msg", n)
	var random [64]byte
	copy(random[:], vfBytes("random", 64))
	p0, r0 := priv, random
	m0 := append([]byte{}, msg...)
	sig := Sign(&priv, msg, random)
	vfAssert(vfAnd(vfEq(p0[:], priv[:]), vfEq(r0[:], random[:]), vfEq(m0, msg)), "signing does not change its inputs")
	s0 := *sig
	ok1 := Verify(pub, msg, sig)
	vfAssert(ok1, "a genuine signature verifies")
	ok2 := Verify(pub, msg, sig)
	vfAssert(ok2, "it verifies again when asked again")
	vfAssert(vfEq(s0[:], sig[:]), "verifying does not change the signature")
	vfAssert(vfEq(m0, msg), "verifying does not change the message")
	vfReach("verified")
}

// The same signature gives the same answer however often, for arbitrary bytes.
func VC28_Pure() {
	var pub [32]byte
	copy(pub[:], vfBytes("pub", 32))
	msg := vfBytes("msg", 33)
	var sig [64]byte
	copy(sig[:], vfBytes("sig", 64))
	s0 := sig
	a := Verify(pub, msg, &sig)
	b := Verify(pub, msg, &sig)
	vfAssert(a == b, "the answer does not depend on having asked before")
	vfAssert(vfEq(s0[:], sig[:]), "the signature is unchanged")
	vfReach("done")
}

// A signature does not verify for a changed message, key or signature.
func VC28_Wrong() {
	n := []int{33, 1, 64, 200, 300}[vfChoose("len", 5)]
	priv, pub := vfKey("priv")
	msg := vfBytes("msg", n)
	var random [64]byte
	copy(random[:], vfBytes("random", 64))
	sig := Sign(&priv, msg, random)
	switch vfChoose("change", 5) {
	case 3: // a message that begins with the signed one
		msg = append(msg, vfBytes("more", 1+vfChoose("longer", 2))...)
	case 4: // or that the signed one begins with
		msg = msg[:n-1-vfChoose("shorter", 2)*(n-1)]
	case 0:
		d := vfBytes("delta", n)
		vfAssume(!vfEq(d, make([]byte, n)))
		for i := range msg {
			msg[i] ^= d[i]
		}
	case 1:
		d := vfBytes("delta", 63)
		vfAssume(!vfEq(d, make([]byte, 63)))
		for i := range d {
			sig[i] ^= d[i]
		}
	case 2:
		_, pub2 := vfKey("priv2")
		vfAssume(!vfEq(pub[:], pub2[:]))
		pub = pub2
	}
	vfAssert(!Verify(pub, msg, sig), "a changed message, signature or key is refused")
	vfReach("refused")
}

// Two different messages or nonces lead to different signature randomness.
func VC28_Nonce() {
	priv, _ := vfKey("priv")
	m1, m2 := vfBytes("m1", 33), vfBytes("m2", 33)
	var r1, r2 [64]byte
	copy(r1[:], vfBytes("r1", 64))
	copy(r2[:], vfBytes("r2", 64))
	vfAssume(vfOr(!vfEq(m1, m2), !vfEq(r1[:], r2[:])))
	a, b := Sign(&priv, m1, r1), Sign(&priv, m2, r2)
	vfAssert(!vfEq(a[:32], b[:32]), "different messages or nonces never share the commitment R")
	vfReach("nonce")
}
