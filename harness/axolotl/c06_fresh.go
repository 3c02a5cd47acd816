package axolotl

//vf:use session

type vfWire struct {
	key []byte
	ctr uint32
	ct  []byte
}

func vfSeen(seen []vfWire, m *vfMsg) []vfWire {
	raw := m.raw
	if m.typ == 3 {
		raw = vfOuter(raw).Message
	}
	_, sm, _ := vfInner(raw)
	for _, o := range seen {
		same := vfAnd(vfEq(o.key, sm.RatchetKey), o.ctr == sm.GetCounter())
		vfAssert(!same, "ratchet key and counter never repeat")
		vfAssert(vfCanDiffer(o.ct, sm.Ciphertext), "the same text never encrypts to the same bytes")
	}
	return append(seen, vfWire{sm.RatchetKey, sm.GetCounter(), sm.Ciphertext})
}

// Sends, receptions, failures of the store and crashes in any order; every
// message handed to the caller has its own key and counter, in sequence.
func VC06_Sends() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfAssert(a.start(b, b.bundle(7, 5, true)) == nil, "session started")
	var seen []vfWire
	next := uint32(0)
	n := 4 + vfTier()
	for i := 0; i < n; i++ {
		switch vfChoose("step", 4) {
		case 0: // an ordinary send
			m := a.send(b, []byte("same text"))
			seen = vfSeen(seen, m)
			raw := m.raw
			if m.typ == 3 {
				raw = vfOuter(raw).Message
			}
			_, sm, _ := vfInner(raw)
			vfAssert(sm.GetCounter() == next, "counters of a chain follow each other")
			next++
		case 1: // the store refuses
			a.st.failStore = true
			raw, _, err := a.cipher("bob").SessionEncryptMessage([]byte("same text"))
			vfAssert(vfAnd(err != nil, len(raw) == 0), "no ciphertext is released when the session cannot be stored")
			a.st.failStore = false
		case 2: // a crash at a store operation
			a.st.crashAt(1+vfChoose("op", 2), vfChoose("before", 2) == 0)
			var raw []byte
			var typ int32
			died := vfPanics(func() { raw, typ, _ = a.cipher("bob").SessionEncryptMessage([]byte("same text")) })
			a.st.crashAt(0, false)
			if !died {
				seen = vfSeen(seen, &vfMsg{a, b, raw, typ, nil})
				next++
			} else if rec := vfRecord(a, "bob"); rec.CurrentSession.SenderChain.ChainKey.Index != next {
				next = rec.CurrentSession.SenderChain.ChainKey.Index
			}
		case 3: // a message from the peer turns the ratchet
			m := a.send(b, []byte("same text"))
			seen = vfSeen(seen, m)
			m.ok("to bob")
			b.send(a, []byte("turn")).ok("from bob")
			next = 0
		}
	}
	vfReach("sent")
}

// The stored session is already past the message when the ciphertext is
// handed out, and the previous counter of a new chain tells the length of the old one.
func VC06_StoredFirst() {
	a, b := vfPair()
	k := vfChoose("n", 4)
	for i := 0; i < k; i++ {
		a.send(b, []byte("x"))
	}
	snap := a.snap()
	m1 := a.send(b, vfBytes("p", 4))
	vfAssert(!vfSameS(snap.sess, a.st.sess), "the stored session advances with every send")
	snap = a.snap()
	m2 := a.send(b, vfBytes("q", 4))
	vfAssert(!vfSameS(snap.sess, a.st.sess), "the stored session advances with every send")
	vfSeen(vfSeen(nil, m1), m2)
	m1.ok("first")
	b.send(a, []byte("turn")).ok("turn")
	_, sm, _ := vfInner(a.send(b, []byte("z")).raw)
	vfAssert(vfAnd(sm.GetCounter() == 0, sm.GetPreviousCounter() == uint32(k+1)), "a new chain counts from 0 and names the last counter of the old one")
	vfReach("stored")
}

// A load failure releases nothing and leaves the session as it was.
func VC06_LoadFailure() {
	a, b := vfPair()
	snap := a.snap()
	a.st.failLoad = true
	raw, _, err := a.cipher("bob").SessionEncryptMessage(vfBytes("p", 3))
	vfAssert(vfAnd(err != nil, len(raw) == 0), "no ciphertext is released when the session cannot be loaded")
	a.st.failLoad = false
	a.unchanged(snap, "after a failed load")
	a.send(b, vfBytes("p", 3)).ok("afterwards")
	vfReach("failed")
}

// At any point of a chain, and for texts of any length, consecutive messages
// have different keys and counters that follow each other.
//
//vf:fixedrand
func VC06_AnyCounter() {
	a, b := vfPair()
	a.send(b, []byte("x")).ok("first of the chain")
	i := vfU32("counter")
	vfAssume(i < 1<<32-4)
	vfAdvance(a, b, i)
	pt := make([]byte, []int{0, 1, 15, 16}[vfChoose("length", 4)])
	var seen []vfWire
	for k := uint32(0); k < 3; k++ {
		m := a.send(b, pt)
		seen = vfSeen(seen, m)
		vfAssert(seen[k].ctr == i+k, "counters of a chain follow each other")
		m.ok("message")
	}
	vfReach("sent")
}
