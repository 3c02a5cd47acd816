package textsecure

//vf:use store

// C15: a crash while saving.

// The client stops at any file operation of saving a value over an earlier
// one; the reopened store has the complete earlier or the complete new value.
//
//vf:fixedrand
func VC15_Save() {
	dir := vfTempDir()
	pw := []string{"secret", ""}[vfChoose("pw", 2)]
	k := vfKinds[vfChoose("kind", len(vfKinds))]
	v1, v2 := make([]byte, k.n), make([]byte, k.n)
	for i := range v1 {
		v1[i], v2[i] = byte(i+1), byte(0x40-i%7)
	}
	s := vfOpen(dir, pw)
	had := vfChoose("had", 2) == 1
	var old []byte
	if had {
		vfAssert(k.put(s, v1) == nil, "saving succeeds")
		b, err := k.get(s)
		vfAssert(err == nil, "what was saved can be read")
		old = b
	}
	crashed := vfCrash(func() {
		if err := k.put(s, v2); err != nil {
			panic("saving fails")
		}
	})
	r := vfOpen(dir, pw)
	got, err := k.get(r)
	if !crashed {
		vfAssert(err == nil, "a completed save can be read: "+k.name)
		vfReach("saved")
		return
	}
	vfReach("crashed")
	dir2 := vfTempDir()
	ref := vfOpen(dir2, pw)
	k.put(ref, v2)
	want, _ := k.get(ref)
	isNew := err == nil && vfAlike(k, got, want, v2)
	if had {
		vfAssert(err == nil, "after a crash the value can still be read: "+k.name)
		vfAssert(err != nil || isNew || vfEq(got, old), "after a crash the value is the complete old or the complete new one: "+k.name)
	} else if k.name == "session" {
		vfAssert(err == nil, "after a crash the store has no session or a complete one")
	} else {
		vfAssert(err != nil || isNew, "after a crash while saving the first value it is absent or complete: "+k.name)
	}
	// The store still works: the interrupted value can be saved again.
	vfAssert(k.put(r, v1) == nil, "saving after a crash succeeds")
	again, err := k.get(r)
	vfAssert(err == nil, "and can be read: "+k.name)
	vfAssert(!had || vfAlike(k, again, old, v1), "and is what was saved: "+k.name)
}

// Records with a fresh public key are compared by the private key they carry.
func vfAlike(k vfKind, a, b, v []byte) bool {
	if k.name == "prekey" || k.name == "signed prekey" {
		return len(a) == len(b) && vfContains(a, v)
	}
	return vfEq(a, b)
}

func vfContains(a, v []byte) bool {
	for i := 0; i+len(v) <= len(a); i++ {
		if vfEq(a[i:i+len(v)], v) {
			return true
		}
	}
	return false
}

// A crash while one prekey is saved does not keep the others from loading.
//
//vf:fixedrand
func VC15_Neighbours() {
	dir := vfTempDir()
	s := vfOpen(dir, "secret")
	for _, id := range []uint32{3, 4, lastResortPreKeyID} {
		vfAssert(s.StorePreKey(id, vfPreKeyRec(id, nil)) == nil, "saving succeeds")
	}
	which := []uint32{3, 9}[vfChoose("which", 2)]
	crashed := vfCrash(func() { s.StorePreKey(which, vfPreKeyRec(which, nil)) })
	textSecureStore = vfOpen(dir, "secret")
	vfAssert(textSecureStore.valid(), "the store is still a complete one")
	err := loadPreKeys()
	vfAssert(err == nil, "after a crash the prekeys can be loaded")
	n := len(preKeyRecords)
	vfAssert(n == 3 || n == 4 && which == 9, "the prekeys are the complete saved ones")
	vfAssert(crashed || which == 3 || n == 4, "a completed save is loaded")
	ok := true
	for _, r := range preKeyRecords {
		ok = ok && r != nil && r.Pkrs != nil && len(r.Pkrs.PrivateKey) == 32
	}
	vfAssert(ok, "each is complete")
	vfReach("loaded")
}

// A crash while a session is saved leaves the other sessions and the list of
// sessions alone.
//
//vf:fixedrand
func VC15_Sessions() {
	dir := vfTempDir()
	s := vfOpen(dir, "secret")
	v := make([]byte, 32)
	s.StoreSession(vfPeer, 1, vfSession(v))
	s.StoreSession(vfPeer, 2, vfSession(v))
	v[0] = 1
	vfCrash(func() { s.StoreSession(vfPeer, 2, vfSession(v)) })
	s = vfOpen(dir, "secret")
	n := 0
	for _, d := range s.GetSubDeviceSessions(vfPeer) {
		vfAssert(d == 1 || d == 2, "only devices with a session are listed")
		n++
	}
	vfAssert(n == 2, "each device is listed once")
	a, e1 := s.LoadSession(vfPeer, 1)
	b, e2 := s.LoadSession(vfPeer, 2)
	vfAssert(e1 == nil && e2 == nil && a != nil && b != nil, "both sessions can be read")
	vfReach("listed")
}
