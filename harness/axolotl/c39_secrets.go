package axolotl

//vf:use session

// C39: secrets come from the secure random source, whole.

var vfClamped = append(append([]byte{7}, make([]byte, 30)...), 0xc0)

// Private keys: all bits but those Curve25519 fixes.
func VC39_KeyPairs() {
	vfAssert(vfFresh(func() []byte { return NewECKeyPair().PrivateKey.Key()[:] }, vfClamped), "a private key is random in all its bits")
	vfAssert(vfFresh(func() []byte { return GenerateIdentityKeyPair().PrivateKey.Key()[:] }, vfClamped), "an identity key is random in all its bits")
	vfReach("generated")
}

// The ephemeral keys of a new session and of every turn of the ratchet.
func VC39_Ratchet() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	bundle := b.bundle(7, 5, vfChoose("one-time", 2) == 1)
	vfAssert(vfFresh(func() []byte {
		a.st.sess = map[string][]byte{}
		if a.start(b, bundle) != nil {
			panic("not started")
		}
		return vfOuter(a.send(b, []byte("x")).raw).BaseKey[1:]
	}, append(make([]byte, 31), 0x80)), "the base key of a session is random")
	vfAssert(vfFresh(func() []byte {
		a.st.sess = map[string][]byte{}
		if a.start(b, bundle) != nil {
			panic("not started")
		}
		return vfRecord(a, "bob").CurrentSession.SenderChain.SenderRatchetKeyPrivate
	}, vfClamped), "the ratchet key of a session is random in all its bits")
	vfReach("started")
}
