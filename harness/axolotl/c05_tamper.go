package axolotl

//vf:use session
//vf:use forge

func vfRefuse(from, to *vfParty, typ int32, raw []byte) {
	var pt []byte
	var err error
	pt, err = vfDeliver(from, to, typ, raw)
	vfAssert(vfAnd(err != nil, len(pt) == 0), "an altered message is refused")
}

// vfFrame tells which bytes of an ordinary message are tags, lengths and numbers.
func vfFrame(raw []byte) []bool {
	f := make([]bool, len(raw))
	for i := 1; i < len(raw)-8; {
		f[i] = true
		if raw[i]&7 == 2 {
			f[i+1] = true
			i += 2 + int(raw[i+1])
		} else {
			for i++; raw[i] >= 0x80; i++ {
				f[i] = true
			}
			f[i] = true
			i++
		}
	}
	return f
}

func vfAlterByte(raw []byte, frame bool) []byte {
	raw = append([]byte{}, raw...)
	f := vfFrame(raw)
	var at []int
	for i := range raw {
		if f[i] == frame {
			at = append(at, i)
		}
	}
	mask := byte(1)
	if frame { // bit by bit, or all bits
		mask = []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}[vfChoose("bit", 9)]
	} else {
		mask = vfU8("mask")
		vfAssume(mask != 0)
	}
	raw[at[vfChoose("pos", len(at))]] ^= mask
	return raw
}

// Any change of any byte of an ordinary message other than its framing and counters.
func VC05_EveryByte() {
	a, b := vfPair()
	m := a.send(b, vfBytes("p", 2))
	vfRefuse(a, b, 1, vfAlterByte(m.raw, false))
	vfReach("refused")
}

// Changed tags, lengths and counters.
//
//vf:fixedrand
func VC05_Framing() {
	a, b := vfPair()
	m := a.send(b, []byte("pq"))
	vfRefuse(a, b, 1, vfAlterByte(m.raw, true)) // keys are fixed: a shifted frame makes them fields
	vfReach("refused")
}

// Any change of any byte of the message inside a prekey message (header: see below).
func VC05_EveryByteOpening() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfAssert(a.start(b, b.bundle(7, 5, true)) == nil, "session started")
	m := a.send(b, vfBytes("p", 2))
	if vfChoose("second", 2) == 1 {
		m.ok("first")
		m = a.send(b, vfBytes("p", 2))
	}
	pm := vfOuter(m.raw)
	pm.Message = vfAlterByte(pm.Message, false)
	vfRefuse(a, b, 3, vfJoinOuter(pm))
	vfReach("refused")
}

// Truncated messages.
func VC05_Truncated() {
	a, b := vfPair()
	m := a.send(b, vfBytes("p", 2))
	vfRefuse(a, b, 1, m.raw[:vfChoose("cut", len(m.raw))])
	vfReach("refused")
}

// Messages that lost bytes anywhere.
//
//vf:fixedrand
func VC05_Cut() {
	a, b := vfPair()
	m := a.send(b, []byte("plain"))
	i := vfChoose("from", len(m.raw))
	n := 1 + vfChoose("n", 2+4*vfTier())
	vfAssume(i+n <= len(m.raw))
	vfRefuse(a, b, 1, append(append([]byte{}, m.raw[:i]...), m.raw[i+n:]...))
	vfReach("refused")
}

// Extended messages.
//
//vf:fixedrand
//vf:paths=800
func VC05_Extended() {
	a, b := vfPair()
	m := a.send(b, []byte("pq"))
	at := []int{len(m.raw), len(m.raw) - 8, 1, 36}[vfChoose("at", 4)]
	n := 1 + vfChoose("n", 2+vfTier())
	raw := append(append(append([]byte{}, m.raw[:at]...), vfBytes("more", n)...), m.raw[at:]...)
	vfRefuse(a, b, 1, raw)
	vfReach("refused")
}

// The keys in the header of a first message are bound to the session: any
// other identity or base key, or a prekey that was not used, is refused.
func VC05_Header() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	one := vfChoose("onetime", 2) == 1
	bun := b.bundle(7, 5, one)
	b.bundle(17, 15, true)
	vfAssert(a.start(b, bun) == nil, "session started")
	m := a.send(b, vfBytes("p", 2))
	pm := vfOuter(m.raw)
	switch vfChoose("how", 6) {
	case 0:
		pm.IdentityKey = vfNewParty("mallory", 3).st.own.PublicKey.Serialize()
	case 1:
		pm.BaseKey = NewECKeyPair().PublicKey.Serialize()
	case 2:
		id := uint32(17)
		pm.PreKeyId = &id
	case 3:
		id := uint32(15)
		pm.SignedPreKeyId = &id
	case 4:
		vfAssume(one)
		id := uint32(0)
		pm.PreKeyId = &id
	case 5: // identity key altered in any bit pattern
		mask := vfU8("mask")
		vfAssume(mask != 0)
		k := append([]byte{}, pm.IdentityKey...)
		k[1+vfChoose("pos", 31)] ^= mask
		pm.IdentityKey = k
	}
	vfRefuse(a, b, 3, vfJoinOuter(pm))
	m.ok("the genuine message")
	vfReach("refused")
}

// Forgeries of other kinds (see vfForge), at several points.
func VC05_Forged() {
	a, b := vfPair()
	own := b.send(a, vfBytes("own", 2))
	if vfChoose("own", 2) == 1 {
		own.ok("own message arrives")
	}
	m := a.send(b, vfBytes("p", 2))
	raw, typ := vfForge(a, b, m, own, false)
	vfRefuse(a, b, typ, raw)
	vfReach("refused")
}

// A genuine message presented in a session with other identities: carol, who
// has sessions with both, passes alice's message on as hers, or bob's session
// with carol gets it.
func VC05_Misdirected() {
	a, b, c := vfNewParty("alice", 11), vfNewParty("bob", 22), vfNewParty("carol", 33)
	bb := b.bundle(7, 5, false)
	vfAssert(vfAnd(a.start(b, bb) == nil, c.start(b, bb) == nil), "sessions started")
	ma, mc := a.send(b, vfBytes("pa", 2)), c.send(b, vfBytes("pc", 2))
	switch vfChoose("how", 4) {
	case 0: // alice's first message claimed by carol, with carol's identity
		pm := vfOuter(ma.raw)
		pm.IdentityKey = c.st.own.PublicKey.Serialize()
		vfRefuse(c, b, 3, vfJoinOuter(pm))
	case 1: // alice's message inside carol's header
		pm := vfOuter(mc.raw)
		pm.Message = vfOuter(ma.raw).Message
		vfRefuse(c, b, 3, vfJoinOuter(pm))
	case 2: // after both sessions exist, alice's message arrives as carol's
		ma.ok("alice")
		mc.ok("carol")
		vfRefuse(c, b, 1, vfOuter(a.send(b, vfBytes("p2", 2)).raw).Message)
	case 3: // a message for bob is given to carol, who has a session with alice
		bc := c.bundle(40, 41, true)
		vfAssert(a.start(c, bc) == nil, "session started")
		a.send(c, []byte("x")).ok("alice to carol")
		vfRefuse(a, c, 1, vfOuter(ma.raw).Message)
	}
	vfReach("refused")
}

// A session between other identities refuses the message, whichever bit of
// whichever identity differs.
func VC05_OtherIdentities() {
	a, b := vfPair()
	m := a.send(b, vfBytes("p", 2))
	r := vfRecord(b, "alice")
	id := &r.CurrentSession.LocalIdentityPublic
	if vfChoose("whose", 2) == 1 {
		id = &r.CurrentSession.RemoteIdentityPublic
	}
	mask := vfU8("mask")
	vfAssume(mask != 0)
	k := append([]byte{}, *id...)
	k[vfChoose("pos", len(k))] ^= mask
	own := append([]byte{}, b.st.sess[vfSessKey("alice", vfDev)]...)
	*id = k
	vfPutRecord(b, "alice", r)
	snap := b.snap()
	m.refused("a session between other identities refuses the message")
	b.unchanged(snap, "after a misdirected message")
	b.st.sess[vfSessKey("alice", vfDev)] = own
	m.ok("the right session accepts it")
	vfReach("refused")
}
