package axolotl

//vf:use session

// reload saves and loads p's session with peer once more.
func (p *vfParty) reload(peer string) {
	k := vfSessKey(peer, vfDev)
	before := append([]byte{}, p.st.sess[k]...)
	r, err := LoadSessionRecord(append([]byte{}, before...))
	vfAssert(err == nil, "a saved session loads")
	if err != nil {
		return
	}
	after, err := r.Serialize()
	vfAssert(vfAnd(err == nil, vfEq(before, after)), "a loaded session saves to the same bytes")
	p.st.sess[k] = after
}

// vfCached keeps session objects in memory instead of saving and loading them.
type vfCached struct {
	*vfStore
	recs map[string]*SessionRecord
}

func (s *vfCached) LoadSession(id string, dev uint32) (*SessionRecord, error) {
	if r, ok := s.recs[vfSessKey(id, dev)]; ok {
		return r, nil
	}
	return s.vfStore.LoadSession(id, dev)
}
func (s *vfCached) StoreSession(id string, dev uint32, r *SessionRecord) error {
	s.recs[vfSessKey(id, dev)] = r
	return s.vfStore.StoreSession(id, dev, r)
}

// A session is reloaded at every stage of a conversation: fresh, waiting for
// the first reply, with several chains, skipped messages and archived states.
func VC11_Session() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	vfAssert(a.start(b, b.bundle(7, 5, vfChoose("onetime", 2) == 1)) == nil, "session started")
	a.reload("bob")
	m1 := a.send(b, vfBytes("p", 2))
	a.reload("bob")
	skipped := a.send(b, vfBytes("s", 2))
	m2 := a.send(b, vfBytes("p", 2))
	vfAssert(m2.typ == 3, "the prekey header is still pending after a reload")
	m1.ok("first")
	b.reload("alice")
	m2.ok("second")
	b.reload("alice")
	b.send(a, vfBytes("q", 2)).ok("reply")
	a.reload("bob")
	for i := 0; i < 3; i++ {
		a.send(b, []byte("skip"))
		a.send(b, vfBytes("p", 2)).ok("to bob")
		b.reload("alice")
		b.send(a, vfBytes("q", 2)).ok("to alice")
		a.reload("bob")
	}
	vfAssert(a.start(b, b.bundle(9, 10, true)) == nil, "session started again")
	a.reload("bob")
	n := a.send(b, vfBytes("n", 2))
	n.ok("new session")
	b.reload("alice")
	skipped.ok("skipped message of the archived session")
	b.reload("alice")
	ra, _ := a.cipher("bob").GetRemoteRegistrationID()
	vfAssert(ra == 22, "the registration id survives")
	vfReach("reloaded")
}

// Sessions replaced before they were answered: everything still on its way in
// them decrypts after reloads.
func VC11_Archived() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	vfAssert(a.start(b, b.bundle(7, 5, vfChoose("onetime", 2) == 1)) == nil, "session started")
	m1, m2 := a.send(b, vfBytes("p", 2)), a.send(b, vfBytes("p", 2))
	m1.ok("first")
	answer, late := b.send(a, vfBytes("q", 2)), b.send(a, vfBytes("q", 2))
	answered := vfChoose("answered", 2) == 1
	if answered {
		answer.ok("answer")
		a.reload("bob")
	}
	for i, n := 0, 1+vfChoose("more", 2); i < n; i++ {
		vfAssert(a.start(b, b.bundle(uint32(9+i), int32(10+i), true)) == nil, "session started again")
		a.reload("bob")
	}
	if vfChoose("used", 2) == 1 {
		a.send(b, vfBytes("n", 2)).ok("new session")
		b.reload("alice")
	}
	m2.ok("second message of the first session")
	b.reload("alice")
	late.ok("second answer in the first session")
	a.reload("bob")
	if !answered {
		answer.ok("first answer in the first session")
	}
	vfReach("archived")
}

// The same conversation with the session kept in memory and with it saved and
// loaded at every step: both accept the same messages.
func VC11_MemoryOrDisk() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	vfAssert(a.start(b, b.bundle(7, 5, true)) == nil, "session started")
	mem := &vfCached{b.st, map[string]*SessionRecord{}}
	ciph := NewSessionCipher(mem, mem, mem, mem, "alice", vfDev)
	m1, m2, m3 := a.send(b, vfBytes("p", 2)), a.send(b, vfBytes("p", 2)), a.send(b, vfBytes("p", 2))
	for _, m := range []*vfMsg{m2, m3, m1} {
		pm, err := LoadPreKeyWhisperMessage(append([]byte{}, m.raw...))
		vfAssert(err == nil, "loads")
		pt, err := ciph.SessionDecryptPreKeyWhisperMessage(pm)
		vfAssert(vfAnd(err == nil, vfEq(pt, m.pt)), "in memory: exact plaintext")
		if vfChoose("drop", 2) == 1 {
			mem.recs = map[string]*SessionRecord{} // continue from disk
		}
	}
	raw, _, err := ciph.SessionEncryptMessage(vfBytes("q", 2))
	vfAssert(err == nil, "encrypts")
	wm, err := LoadWhisperMessage(raw)
	vfAssert(err == nil, "loads")
	_, err = a.cipher("bob").SessionDecryptWhisperMessage(wm)
	vfAssert(err == nil, "reply accepted")
	vfReach("same")
}

// Prekey records come back with the same id and key pair.
func VC11_PreKey() {
	id := vfU32("id")
	kp := NewECKeyPair()
	b, err := NewPreKeyRecord(id, kp).Serialize()
	vfAssert(err == nil, "serializes")
	r, err := LoadPreKeyRecord(append([]byte{}, b...))
	vfAssert(err == nil, "loads")
	k := r.getKeyPair()
	vfAssert(vfAnd(r.Pkrs.GetId() == id, vfEq(k.PublicKey.Key()[:], kp.PublicKey.Key()[:]), vfEq(k.PrivateKey.Key()[:], kp.PrivateKey.Key()[:])), "same id and keys")
	c, err := r.Serialize()
	vfAssert(vfAnd(err == nil, vfEq(b, c)), "saves to the same bytes")
	vfReach("prekey")
}

// Signed prekey records come back with the same id, keys, signature and time.
func VC11_SignedPreKey() {
	id, ts := vfU32("id"), vfU64("ts")
	kp := NewECKeyPair()
	sig := vfBytes("sig", 64)
	b, err := NewSignedPreKeyRecord(id, ts, kp, sig).Serialize()
	vfAssert(err == nil, "serializes")
	r, err := LoadSignedPreKeyRecord(append([]byte{}, b...))
	vfAssert(err == nil, "loads")
	k := r.getKeyPair()
	vfAssert(vfAnd(r.Spkrs.GetId() == id, r.Spkrs.GetTimestamp() == ts, vfEq(r.Spkrs.GetSignature(), sig),
		vfEq(k.PublicKey.Key()[:], kp.PublicKey.Key()[:]), vfEq(k.PrivateKey.Key()[:], kp.PrivateKey.Key()[:])), "same contents")
	vfReach("signed prekey")
}

// Damaged records give errors, not crashes.
func VC11_Junk() {
	n := vfChoose("n", 4+2*vfTier())
	b := vfBytes("b", n)
	_, err := LoadPreKeyRecord(append([]byte{}, b...))
	_, err2 := LoadSignedPreKeyRecord(append([]byte{}, b...))
	_, err3 := LoadSessionRecord(append([]byte{}, b...))
	_, _, _ = err, err2, err3
	vfReach("returned")
}
