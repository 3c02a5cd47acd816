package axolotl

//vf:use session

import "sync"

// C46: sessions used from several places at once.

// vfShared is a store used by several goroutines: Lock and Unlock are a mutex,
// as in the client's own store, and each operation is one step.
type vfShared struct {
	*vfStore
	mu, in sync.Mutex
}

func (s *vfShared) Lock()   { s.mu.Lock() }
func (s *vfShared) Unlock() { s.mu.Unlock() }
func (s *vfShared) LoadSession(id string, dev uint32) (*SessionRecord, error) {
	s.in.Lock()
	defer s.in.Unlock()
	return s.vfStore.LoadSession(id, dev)
}
func (s *vfShared) StoreSession(id string, dev uint32, r *SessionRecord) error {
	s.in.Lock()
	defer s.in.Unlock()
	return s.vfStore.StoreSession(id, dev, r)
}
func (s *vfShared) ContainsSession(id string, dev uint32) bool {
	s.in.Lock()
	defer s.in.Unlock()
	return s.vfStore.ContainsSession(id, dev)
}
func (s *vfShared) LoadPreKey(id uint32) (*PreKeyRecord, error) {
	s.in.Lock()
	defer s.in.Unlock()
	return s.vfStore.LoadPreKey(id)
}
func (s *vfShared) RemovePreKey(id uint32) {
	s.in.Lock()
	defer s.in.Unlock()
	s.vfStore.RemovePreKey(id)
}
func (s *vfShared) SaveIdentity(id string, k *IdentityKey) error {
	s.in.Lock()
	defer s.in.Unlock()
	return s.vfStore.SaveIdentity(id, k)
}
func (s *vfShared) IsTrustedIdentity(id string, k *IdentityKey) bool {
	s.in.Lock()
	defer s.in.Unlock()
	return s.vfStore.IsTrustedIdentity(id, k)
}

// vfOnce is a party whose store is shared.
type vfOnce struct {
	p  *vfParty
	st *vfShared
}

func vfShare(p *vfParty) *vfOnce { return &vfOnce{p, &vfShared{vfStore: p.st}} }

// vfDone is what one of the goroutines did.
type vfDone struct {
	m   *vfMsg
	got []byte
	err error
}

func (o *vfOnce) write(to *vfParty, pt string) vfDone {
	raw, typ, err := NewSessionCipher(o.st, o.st, o.st, o.st, to.name, vfDev).SessionEncryptMessage([]byte(pt))
	return vfDone{&vfMsg{o.p, to, raw, typ, []byte(pt)}, nil, err}
}

func (o *vfOnce) start(to *vfParty, b *PreKeyBundle) error {
	return NewSessionBuilder(o.st, o.st, o.st, o.st, to.name, vfDev).BuildSenderSession(b)
}

func (o *vfOnce) read(m *vfMsg) vfDone {
	sc := NewSessionCipher(o.st, o.st, o.st, o.st, m.from.name, vfDev)
	var got []byte
	var err error
	if m.typ == 3 {
		var pm *PreKeyWhisperMessage
		if pm, err = LoadPreKeyWhisperMessage(append([]byte{}, m.raw...)); err == nil {
			got, err = sc.SessionDecryptPreKeyWhisperMessage(pm)
		}
	} else {
		var wm *WhisperMessage
		if wm, err = LoadWhisperMessage(append([]byte{}, m.raw...)); err == nil {
			got, err = sc.SessionDecryptWhisperMessage(wm)
		}
	}
	return vfDone{nil, got, err}
}

// vfBoth does x and y at the same time.
func vfBoth(x, y func() vfDone) (vfDone, vfDone) {
	cx, cy := make(chan vfDone, 1), make(chan vfDone, 1)
	vfSched(true)
	go func() { cx <- x() }()
	go func() { cy <- y() }()
	a, b := <-cx, <-cy
	vfSched(false)
	return a, b
}

// In a session that is used by two goroutines at once, each encrypted message
// is read by the other side, each arriving one is read, and none twice.
//
//vf:fixedrand
//vf:preempt=1
func VC46_Session() {
	a, b := vfNewParty("a", 1), vfNewParty("b", 2)
	vfDistinct(a, b)
	vfAssert(a.start(b, b.bundle(7, 9, true)) == nil, "a session can be started")
	a.send(b, []byte("first")).ok("first")
	if vfChoose("acknowledged", 2) == 1 {
		b.send(a, []byte("answer")).ok("answer")
	}
	r1, r2 := b.send(a, []byte("r1")), b.send(a, []byte("r2"))
	o := vfShare(a)
	sent, read := map[string]*vfMsg{}, []*vfMsg{}
	var x, y vfDone
	switch vfChoose("at once", 4) {
	case 0:
		x, y = vfBoth(func() vfDone { return o.write(b, "m1") }, func() vfDone { return o.write(b, "m2") })
		sent["m1"], sent["m2"] = x.m, y.m
	case 1:
		x, y = vfBoth(func() vfDone { return o.write(b, "m1") }, func() vfDone { return o.read(r1) })
		sent["m1"], read = x.m, append(read, r1)
		vfAssert(string(y.got) == "r1", "an arriving message is read")
	case 2:
		x, y = vfBoth(func() vfDone { return o.read(r1) }, func() vfDone { return o.read(r2) })
		vfAssert(string(x.got) == "r1" && string(y.got) == "r2", "each arriving message is read")
		read = append(read, r1, r2)
	case 3: // the same one twice
		x, y = vfBoth(func() vfDone { return o.read(r1) }, func() vfDone { return o.read(r1) })
		vfAssert((x.err == nil) != (y.err == nil), "a message that arrives twice at once is read once")
		x.err, y.err, read = nil, nil, append(read, r1)
	}
	vfAssert(x.err == nil && y.err == nil, "both succeed")
	if x.err != nil || y.err != nil {
		return
	}
	for _, n := range []string{"m2", "m1"} {
		if m := sent[n]; m != nil {
			m.ok("a message written at the same time as others")
		}
	}
	for _, m := range read {
		vfAssert(o.read(m).err != nil, "what was read is not read again")
	}
	if len(read) < 2 {
		d := o.read(r2)
		vfAssert(d.err == nil && string(d.got) == "r2", "later messages are read")
	}
	d := o.write(b, "later")
	vfAssert(d.err == nil, "the session goes on")
	if d.err == nil {
		d.m.ok("later")
	}
	b.send(a, []byte("end")).ok("end")
	vfReach("done")
}

// Both sides start a session at the same time, while the first message of the
// other side is taken: no message of either side is lost.
//
//vf:fixedrand
//vf:preempt=1
func VC46_Start() {
	a, b := vfNewParty("a", 1), vfNewParty("b", 2)
	vfDistinct(a, b)
	own := vfChoose("one-time prekey", 2) == 1
	ba, bb := a.bundle(3, 4, own), b.bundle(7, 9, true)
	vfAssert(b.start(a, ba) == nil, "a session can be started")
	p1, p2 := b.send(a, []byte("p1")), b.send(a, []byte("p2"))
	o := vfShare(a)
	begin := func() vfDone {
		if err := o.start(b, bb); err != nil {
			return vfDone{nil, nil, err}
		}
		return o.write(b, "m1")
	}
	var x, y vfDone
	switch vfChoose("at once", 3) {
	case 0:
		x, y = vfBoth(begin, func() vfDone { return o.read(p1) })
		vfAssert(string(y.got) == "p1", "the first message is read")
		d := o.read(p2)
		vfAssert(d.err == nil && string(d.got) == "p2", "and so is the next of the same session")
	case 1: // two of the other side's
		x, y = vfBoth(func() vfDone { return o.read(p1) }, func() vfDone { return o.read(p2) })
		vfAssert(string(x.got) == "p1" && string(y.got) == "p2", "the first messages are read")
		x.m = o.write(b, "m1").m
	case 2: // one's own, twice
		b2 := b.bundle(8, 10, true)
		x, y = vfBoth(begin, func() vfDone {
			if err := o.start(b, b2); err != nil {
				return vfDone{nil, nil, err}
			}
			return o.write(b, "m2")
		})
		vfAssert(x.err == nil && y.err == nil, "both succeed")
		if y.err != nil {
			return
		}
		y.m.ok("m2")
	}
	vfAssert(x.err == nil && y.err == nil, "both succeed")
	if x.err != nil || y.err != nil {
		return
	}
	x.m.ok("m1")
	b.send(a, []byte("end")).ok("end")
	a.send(b, []byte("end")).ok("end")
	vfReach("done")
}
