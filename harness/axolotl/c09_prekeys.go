package axolotl

//vf:use session

import vfpb9 "github.com/signal-golang/textsecure/axolotl/protobuf"

func (p *vfParty) onlyGone(s *vfSnap, gone uint32, label string) {
	want := map[uint32][]byte{}
	for k, v := range s.pk {
		if k != gone {
			want[k] = v
		}
	}
	n := p.snap()
	vfAssert(vfSameU(want, n.pk), label)
	vfAssert(vfSameU(s.spk, n.spk), label+" (signed prekeys stay)")
}

// An accepted first message removes exactly the prekey it names; repeats of it
// and later messages remove nothing.
func VC09_Accepted() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	var id uint32
	switch vfChoose("id", 4) {
	case 0:
		id = 7
	case 1:
		id = 0xFFFFFF
	case 2:
		id = 1
	case 3:
		id = vfU32("id")
		vfAssume(vfAnd(id != 0, id != 21, id != 0xFFFFFF, id < 1<<24))
	}
	bun := b.bundle(id, 5, true)
	for _, k := range []uint32{0, 21, 0xFFFFFF} {
		if k != id {
			b.st.StorePreKey(k, NewPreKeyRecord(k, NewECKeyPair()))
		}
	}
	vfAssert(a.start(b, bun) == nil, "session started")
	m1, m2 := a.send(b, vfBytes("p", 2)), a.send(b, vfBytes("q", 2))
	s := b.snap()
	m1.ok("first message")
	gone := id
	if id == 0xFFFFFF {
		gone = 0xEEEEEEE
	}
	b.onlyGone(s, gone, "exactly the prekey of the message is removed")
	s = b.snap()
	m2.ok("another message with the prekey header")
	m1.refused("repeat of the first")
	b.onlyGone(s, 0xEEEEEEE, "nothing else is removed later")
	vfReach("accepted")
}

// A first message without one-time prekey removes nothing.
func VC09_NoOneTime() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	bun := b.bundle(7, 5, false)
	for _, k := range []uint32{0, 7, 21, 0xFFFFFF} {
		b.st.StorePreKey(k, NewPreKeyRecord(k, NewECKeyPair()))
	}
	vfAssert(a.start(b, bun) == nil, "session started")
	s := b.snap()
	a.send(b, vfBytes("p", 2)).ok("first message")
	a.send(b, vfBytes("p", 2)).ok("second message")
	b.onlyGone(s, 0xEEEEEEE, "no prekey is removed")
	vfReach("accepted")
}

// Refused first messages remove nothing, and the genuine one still works.
func VC09_Refused() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	vfAssert(a.start(b, b.bundle(7, 5, true)) == nil, "session started")
	b.st.StorePreKey(21, NewPreKeyRecord(21, NewECKeyPair()))
	m := a.send(b, vfBytes("p", 2))
	pm := vfOuter(m.raw)
	switch vfChoose("how", 6) {
	case 0:
		in := append([]byte{}, pm.Message...)
		mask := vfU8("mask")
		vfAssume(mask != 0)
		in[len(in)-1-vfChoose("pos", 8)] ^= mask
		pm.Message = in
	case 1:
		id := uint32(21)
		pm.PreKeyId = &id
	case 2:
		id := uint32(77)
		pm.SignedPreKeyId = &id
	case 3:
		pm.BaseKey = NewECKeyPair().PublicKey.Serialize()
	case 5: // too far ahead, which only shows when the session is there
		ver, sm, mac := vfInner(pm.Message)
		c := vfU32("counter")
		vfAssume(c > 2000)
		sm.Counter = &c
		pm.Message = vfJoin(ver, sm, mac)
	case 4: // wraps a message of nobody's session
		pm.Message = vfOuter(func() []byte {
			x := vfNewParty("x", 1)
			vfAssert(x.start(b, b.bundle(31, 32, false)) == nil, "x")
			return x.send(b, []byte("x")).raw
		}()).Message
	}
	s := b.snap()
	pt, err := vfDeliver(a, b, 3, vfJoinOuter(pm))
	vfAssert(vfAnd(err != nil, len(pt) == 0), "refused")
	b.onlyGone(s, 0xEEEEEEE, "a refused message removes no prekey")
	m.ok("the genuine message")
	vfReach("refused")
}

// A message of an established session inside a forged prekey header (any base
// key) must not use up the prekey the header names.
func VC09_Wrapped() {
	a, b := vfPair()
	b.st.StorePreKey(21, NewPreKeyRecord(21, NewECKeyPair()))
	m := a.send(b, vfBytes("p", 2))
	pk, spk, reg := uint32(21), uint32(5), uint32(11)
	pm := &vfpb9.PreKeySignalMessage{RegistrationId: &reg, PreKeyId: &pk, SignedPreKeyId: &spk,
		BaseKey: NewECKeyPair().PublicKey.Serialize(), IdentityKey: a.st.own.PublicKey.Serialize(), Message: m.raw}
	s := b.snap()
	vfDeliver(a, b, 3, vfJoinOuter(pm))
	b.onlyGone(s, 0xEEEEEEE, "a prekey header that authenticates nothing removes no prekey")
	vfReach("wrapped")
}

// A store failure or a crash at any store operation: the message can be
// redelivered and decrypts then, or it was accepted completely.
func VC09_Interrupted() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	vfAssert(a.start(b, b.bundle(7, 5, true)) == nil, "session started")
	m := a.send(b, vfBytes("p", 3))
	s := b.snap()
	switch vfChoose("how", 3) {
	case 0:
		b.st.failStore = true
		m.refused("not accepted when the session cannot be stored")
		b.st.failStore = false
		b.onlyGone(s, 0xEEEEEEE, "no prekey is removed when the session cannot be stored")
	case 1:
		b.st.failSave = true
		m.refused("not accepted when the identity cannot be stored")
		b.st.failSave = false
		b.onlyGone(s, 0xEEEEEEE, "no prekey is removed when the identity cannot be stored")
	case 2:
		b.st.crashAt(1+vfChoose("op", 5), vfChoose("before", 2) == 0)
		vfPanics(func() { m.deliver() })
		b.st.crashAt(0, false)
		if vfSameS(s.sess, b.st.sess) {
			b.onlyGone(s, 0xEEEEEEE, "no prekey is removed before the session is stored")
		}
	}
	if vfSameS(s.sess, b.st.sess) {
		m.ok("redelivery")
	} else {
		m.deliver()
	}
	a.send(b, vfBytes("q", 3)).ok("the next message")
	b.send(a, vfBytes("r", 3)).ok("a reply")
	vfReach("recovered")
}
