package axolotl

//vf:use session

// After first contact (as sender or as receiver), a bundle or a first message
// with any other identity key is refused and changes nothing.
func VC07_ChangedIdentity() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	switch vfChoose("first", 2) {
	case 0:
		vfAssert(a.start(b, b.bundle(7, 5, true)) == nil, "session started")
		if vfChoose("talked", 2) == 1 {
			a.send(b, []byte("x")).ok("first message")
			b.send(a, []byte("y")).ok("reply")
		}
	case 1:
		vfAssert(b.start(a, a.bundle(7, 5, true)) == nil, "session started")
		b.send(a, []byte("x")).ok("first message")
	}
	vfAssert(vfEq(a.st.ids["bob"], b.st.own.PublicKey.Serialize()), "the first identity is recorded")
	m := vfNewParty("bob", 77) // somebody else under bob's name
	a.bundle(27, 25, true)
	snap := a.snap()
	if vfChoose("by", 2) == 0 {
		err := a.start(m, m.bundle(9, 10, vfChoose("onetime", 2) == 1))
		vfAssert(err != nil, "a bundle with another identity is refused")
	} else {
		vfAssert(m.start(a, a.bundle(37, 35, true)) == nil, "mallory starts a session")
		snap = a.snap()
		msg := m.send(a, vfBytes("p", 3))
		pt, err := msg.deliver()
		vfAssert(vfAnd(err != nil, len(pt) == 0), "a first message with another identity is refused")
	}
	a.unchanged(snap, "after a changed identity")
	vfReach("refused")
}

// A first message that names another identity key is refused, also when its
// session is already known and its content is genuine.
func VC07_KnownSession() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfAssert(b.start(a, a.bundle(7, 5, vfChoose("onetime", 2) == 1)) == nil, "session started")
	first, again := b.send(a, vfBytes("p", 2)), b.send(a, vfBytes("p", 2))
	first.ok("first message")
	switch vfChoose("since", 3) {
	case 1:
		a.send(b, []byte("y"))
	case 2: // the session is no longer the current one
		vfAssert(a.start(b, b.bundle(9, 10, true)) == nil, "session started again")
	}
	pm := vfOuter(again.raw)
	if vfChoose("whose", 2) == 0 {
		pm.IdentityKey = vfNewParty("mallory", 66).st.own.PublicKey.Serialize()
		vfAssume(!vfEq(pm.IdentityKey, b.st.own.PublicKey.Serialize()))
	} else {
		mask := vfU8("mask")
		vfAssume(mask != 0)
		pm.IdentityKey[1+[]int{0, 15, 31}[vfChoose("pos", 3)]] ^= mask
	}
	snap := a.snap()
	pt, err := vfDeliver(b, a, 3, vfJoinOuter(pm))
	vfAssert(vfAnd(err != nil, len(pt) == 0), "a first message with another identity is refused")
	a.unchanged(snap, "after a changed identity")
	again.ok("the genuine message")
	vfReach("refused")
}

// The identity key in a bundle or message is compared in full.
func VC07_EveryBit() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfAssert(b.start(a, a.bundle(7, 5, false)) == nil, "session started")
	m := b.send(a, vfBytes("p", 2))
	known := append([]byte{}, b.st.own.PublicKey.Serialize()...)
	mask := vfU8("mask")
	vfAssume(mask != 0)
	known[1+vfChoose("pos", 32)] ^= mask
	a.st.ids["bob"] = known
	snap := a.snap()
	pt, err := m.deliver()
	vfAssert(vfAnd(err != nil, len(pt) == 0), "a key that differs in any bit is another identity")
	bun := b.bundle(9, 10, false)
	vfAssert(a.start(b, bun) != nil, "a key that differs in any bit is another identity")
	a.unchanged(snap, "after a changed identity")
	vfReach("refused")
}

// First contact records the identity; later contact with the same one goes on.
func VC07_FirstUse() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	bun := b.bundle(7, 5, vfChoose("onetime", 2) == 1)
	vfAssert(a.start(b, bun) == nil, "first identity is trusted")
	vfAssert(vfEq(a.st.ids["bob"], b.st.own.PublicKey.Serialize()), "sender records the identity of the bundle")
	m := a.send(b, vfBytes("p", 2))
	vfAssert(len(b.st.ids) == 0, "nothing recorded before the first message")
	m.ok("first message")
	vfAssert(vfEq(b.st.ids["alice"], a.st.own.PublicKey.Serialize()), "receiver records the sender's identity")
	vfAssert(a.start(b, b.bundle(9, 10, false)) == nil, "the same identity stays trusted")
	a.send(b, vfBytes("p", 2)).ok("again")
	vfAssert(vfAnd(len(a.st.ids) == 1, len(b.st.ids) == 1), "only these are recorded")
	vfReach("trusted")
}

// When the identity cannot be recorded, no session with it comes into use: the
// next contact is again a first one.
func VC07_Unrecorded() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfDistinct(a, b)
	incoming := vfChoose("incoming", 2) == 1
	var m *vfMsg
	if incoming {
		vfAssert(b.start(a, a.bundle(7, 5, vfChoose("onetime", 2) == 1)) == nil, "session started")
		m = b.send(a, vfBytes("p", 2))
	}
	a.st.failSave = true
	if incoming {
		_, err := m.deliver()
		vfAssert(err != nil, "an identity that cannot be recorded is reported")
	} else {
		vfAssert(a.start(b, b.bundle(7, 5, vfChoose("onetime", 2) == 1)) != nil, "an identity that cannot be recorded is reported")
	}
	a.st.failSave = false
	vfAssert(len(a.st.ids) == 0, "nothing was recorded")
	_, _, err := a.cipher("bob").SessionEncryptMessage([]byte("x"))
	vfAssert(err != nil, "nothing is sent to an identity that is not recorded")
	if incoming {
		m.ok("redelivered")
		vfAssert(vfEq(a.st.ids["bob"], b.st.own.PublicKey.Serialize()), "the identity is recorded")
	}
	vfReach("unrecorded")
}
