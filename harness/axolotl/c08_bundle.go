package axolotl

//vf:use session

import "github.com/signal-golang/textsecure/curve25519sign"

// Bundles whose signature is not right, for any reason, start nothing.
func VC08_BadSignature() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	has := a.st.ContainsSession("bob", vfDev)
	bun := b.bundle(7, 5, vfChoose("onetime", 2) == 1)
	switch vfChoose("how", 7) {
	case 0: // any byte of the signature (but the top bit of the scalar, see C28)
		mask := vfU8("mask")
		vfAssume(mask != 0)
		bun.SignedPreKeySignature[vfChoose("pos", 63)] ^= mask
	case 1: // a different signed prekey
		bun.SignedPreKeyPublic = &NewECKeyPair().PublicKey
	case 2: // signature by somebody else
		m := vfNewParty("mallory", 1)
		o := m.bundle(1, 2, false)
		bun.SignedPreKeyPublic, bun.SignedPreKeySignature = o.SignedPreKeyPublic, o.SignedPreKeySignature
	case 3: // signature over another key
		o := b.bundle(8, 9, false)
		bun.SignedPreKeySignature = o.SignedPreKeySignature
	case 4: // all of it
		for i := range bun.SignedPreKeySignature {
			bun.SignedPreKeySignature[i] ^= 0x55
		}
	case 5: // no signed prekey
		bun.SignedPreKeyPublic = nil
	case 6: // identity replaced
		vfAssume(!has)
		bun.IdentityKey = &vfNewParty("mallory", 1).st.own.PublicKey
	}
	snap := a.snap()
	err := a.start(b, bun)
	vfAssert(err != nil, "the bundle is refused")
	a.unchanged(snap, "after a refused bundle")
	vfAssert(vfOr(has, !a.st.ContainsSession("bob", vfDev)), "no session")
	vfReach("refused")
}

// A signature by the right identity over anything but the serialized signed
// prekey is no signature of it.
//
//vf:fixedrand
func VC08_OtherContent() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	bun := b.bundle(7, 5, true)
	k := bun.SignedPreKeyPublic.Serialize()
	var random [64]byte
	sign := func(b2 []byte) {
		bun.SignedPreKeySignature = *curve25519sign.Sign(b.st.own.PrivateKey.Key(), b2, random)
	}
	switch vfChoose("over", 9) {
	case 0:
		sign(nil)
	case 1:
		sign(k[1:])
	case 2:
		sign(k[:32])
	case 3:
		sign(append(append([]byte{}, k...), vfU8("more")))
	case 4:
		sign(append([]byte{5}, k...))
	case 5:
		t := vfU8("type")
		vfAssume(t != 5)
		k[0] = t
		sign(k)
	case 6:
		sign(bun.PreKeyPublic.Serialize())
	case 7:
		sign(bun.IdentityKey.Serialize())
	case 8:
		for i, j := 1, 32; i < j; i, j = i+1, j-1 {
			k[i], k[j] = k[j], k[i]
		}
		sign(k)
	}
	snap := a.snap()
	vfAssert(a.start(b, bun) != nil, "the bundle is refused")
	a.unchanged(snap, "after a refused bundle")
	vfReach("refused")
}

// Bundles with hardly any signature.
//
//vf:fixedrand
func VC08_NoSignature() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	bun := b.bundle(7, 5, vfChoose("onetime", 2) == 1)
	s := [64]byte{}
	switch vfChoose("signature", 4) {
	case 1:
		s[63] = 0x80
	case 2:
		s[0] = 1
	case 3:
		for i := range s {
			s[i] = 0xff
		}
	}
	bun.SignedPreKeySignature = s
	if vfChoose("key", 2) == 1 { // of small order, which makes more signatures right
		bun.SignedPreKeyPublic = NewECPublicKey(make([]byte, 32))
	}
	snap := a.snap()
	vfAssert(a.start(b, bun) != nil, "the bundle is refused")
	a.unchanged(snap, "after a refused bundle")
	vfReach("refused")
}

// The signed prekey is altered in any byte under the genuine signature.
func VC08_AlteredPreKey() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	bun := b.bundle(7, 5, true)
	mask := vfU8("mask")
	vfAssume(mask != 0)
	k := append([]byte{}, bun.SignedPreKeyPublic.Key()[:]...)
	k[vfChoose("pos", 32)] ^= mask
	bun.SignedPreKeyPublic = NewECPublicKey(k)
	snap := a.snap()
	vfAssert(a.start(b, bun) != nil, "the bundle is refused")
	a.unchanged(snap, "after a refused bundle")
	vfReach("refused")
}

// Good bundles work for every key, with and without a one-time prekey.
func VC08_Good() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	one := vfChoose("onetime", 2) == 1
	bun := b.bundle(7, 5, one)
	vfAssert(a.start(b, bun) == nil, "a good bundle is accepted")
	m := a.send(b, vfBytes("p", 2))
	pm := vfOuter(m.raw)
	want := uint32(0)
	if one {
		want = 7
	}
	vfAssert(vfAnd(pm.GetPreKeyId() == want, pm.GetSignedPreKeyId() == 5, pm.GetRegistrationId() == 11), "the message names the prekeys of the bundle")
	vfAssert(vfEq(pm.IdentityKey, a.st.own.PublicKey.Serialize()), "the message carries the sender's identity")
	m.ok("first message")
	vfReach("accepted")
}
