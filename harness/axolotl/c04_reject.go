package axolotl

//vf:use session
//vf:use forge

// At some point of a conversation a bad message arrives: it is refused,
// nothing stored changes, and everything genuine still decrypts, in the same way.
func VC04_Rejected() {
	a, b := vfPair()
	skipped := a.send(b, vfBytes("p0", 3))
	if vfChoose("moved", 2) == 1 {
		a.send(b, vfBytes("p1", 3)).ok("one message ahead")
	}
	own := b.send(a, vfBytes("own", 2))
	genuine := a.send(b, vfBytes("p2", 4))
	bad, typ := vfForge(a, b, genuine, own, false)
	before := b.snap()
	pt, err := vfDeliver(a, b, typ, bad)
	vfAssert(vfAnd(err != nil, len(pt) == 0), "the bad message is refused")
	b.unchanged(before, "after a refused message")
	skipped.ok("the skipped message")
	genuine.ok("the genuine message")
	own.ok("a message sent before")
	b.send(a, vfBytes("p3", 2)).ok("a later message")
	vfReach("rejected")
}

// The same with archived sessions on the receiving side.
func VC04_RejectedArchived() {
	a, b := vfPair()
	old := a.send(b, vfBytes("old", 3))
	old2 := a.send(b, vfBytes("old2", 3))
	vfAssert(a.start(b, b.bundle(9, 10, true)) == nil, "session started again")
	a.send(b, vfBytes("new", 3)).ok("new session")
	genuine := a.send(b, vfBytes("p2", 4))
	var bad []byte
	var typ int32
	if vfChoose("which", 2) == 0 {
		bad, typ = vfForge(a, b, genuine, nil, true)
	} else {
		bad, typ = vfForge(a, b, old, nil, true)
	}
	before := b.snap()
	pt, err := vfDeliver(a, b, typ, bad)
	vfAssert(vfAnd(err != nil, len(pt) == 0), "the bad message is refused")
	b.unchanged(before, "after a refused message")
	// a message of the archived session: afterwards both sessions go on
	old2.ok("message of the archived session")
	genuine.ok("message of the current session")
	old.ok("another message of the archived session")
	b.send(a, vfBytes("p3", 2)).ok("a later message")
	vfReach("rejected")
}

// A bad first-contact message: the store stays empty, and the genuine one
// still opens the session.
func VC04_FirstContact() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	vfAssert(a.start(b, b.bundle(7, 5, vfChoose("onetime", 2) == 1)) == nil, "session started")
	genuine := a.send(b, vfBytes("p", 3))
	pm := vfOuter(genuine.raw)
	inner := append([]byte{}, pm.Message...)
	switch vfChoose("how", 6) {
	case 0: // bad authentication code
		mask := vfU8("mask")
		vfAssume(mask != 0)
		inner[len(inner)-1-vfChoose("pos", 8)] ^= mask
		pm.Message = inner
	case 1: // another identity
		pm.IdentityKey = vfNewParty("mallory", 3).st.own.PublicKey.Serialize()
	case 2: // another base key
		pm.BaseKey = NewECKeyPair().PublicKey.Serialize()
	case 3: // unknown signed prekey
		id := vfU32("spk")
		vfAssume(id != 5)
		pm.SignedPreKeyId = &id
	case 4: // unknown prekey
		id := vfU32("pk")
		vfAssume(vfAnd(id != 7, id != 0))
		pm.PreKeyId = &id
	case 5: // altered ciphertext
		ver, sm, mac := vfInner(inner)
		mask := vfU8("mask")
		vfAssume(mask != 0)
		sm.Ciphertext[vfChoose("pos", 16)] ^= mask
		pm.Message = vfJoin(ver, sm, mac)
	}
	before := b.snap()
	pt, err := vfDeliver(a, b, 3, vfJoinOuter(pm))
	vfAssert(vfAnd(err != nil, len(pt) == 0), "the bad first message is refused")
	b.unchanged(before, "after a refused first message")
	genuine.ok("the genuine first message")
	vfReach("rejected")
}
