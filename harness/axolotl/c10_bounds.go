package axolotl

//vf:use session

import (
	vfproto10 "github.com/golang/protobuf/proto"
	vfpb10 "github.com/signal-golang/textsecure/axolotl/protobuf"
)

func (p *vfParty) bounded(peer string) {
	rec := vfRecord(p, peer)
	vfAssert(len(rec.PreviousSessions) <= 40, "at most 40 archived states")
	for _, s := range append([]*vfpb10.SessionStructure{rec.CurrentSession}, rec.PreviousSessions...) {
		vfAssert(len(s.GetReceiverChains()) <= 5, "at most 5 receiver chains")
		for _, c := range s.GetReceiverChains() {
			vfAssert(len(c.GetMessageKeys()) <= 2000, "at most 2000 skipped message keys in a chain")
		}
	}
}

// Many ratchet steps, with messages skipped in each.
func VC10_Chains() {
	a, b := vfPair()
	n := 8 + 6*vfTier()
	for i := 0; i < n; i++ {
		for k := vfChoose("skip", 1+(i&1)); k >= 0; k-- {
			a.send(b, []byte("skipped"))
		}
		a.send(b, []byte("x")).ok("to bob")
		b.send(a, []byte("y")).ok("to alice")
		a.bounded("bob")
		b.bounded("alice")
	}
	vfReach("many steps")
}

// Session after session from the same peer.
func VC10_Sessions() {
	a, b := vfPair()
	n := 43 + 20*vfTier()
	for i := 0; i < n; i++ {
		vfAssert(a.start(b, b.bundle(uint32(100+i), int32(100+i), i%2 == 0)) == nil, "another session")
		a.bounded("bob")
		a.send(b, []byte("x")).ok("first message of it")
		b.bounded("alice")
	}
	m := b.send(a, []byte("reply"))
	m.ok("the newest session works")
	vfReach("many sessions")
}

// A counter too far ahead, in the chain in use or in a new one, for every
// value of the counter.
func VC10_FarAhead() {
	a, b := vfPair()
	k := vfChoose("behind", 2)
	for i := 0; i < k; i++ {
		a.send(b, []byte("x")).ok("x")
	}
	m := a.send(b, vfBytes("p", 2))
	ver, sm, mac := vfInner(m.raw)
	c := vfU32("counter")
	vfAssume(c > uint32(k)+2000)
	if vfChoose("huge", 2) == 1 {
		vfAssume(c >= 1<<28)
	}
	sm.Counter = &c
	if vfChoose("chain", 2) == 1 {
		sm.RatchetKey = NewECKeyPair().PublicKey.Serialize()
	}
	snap := b.snap()
	var pt []byte
	var err error
	vfMustEnd(func() { pt, err = vfDeliver(a, b, 1, vfJoin(ver, sm, mac)) })
	vfAssert(vfAnd(err != nil, len(pt) == 0), "a message too far ahead is refused")
	b.unchanged(snap, "after a message too far ahead")
	m.ok("the genuine message")
	vfReach("far ahead")
}

// The first message of a session is too far ahead.
func VC10_FarAheadFirst() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfAssert(a.start(b, b.bundle(7, 5, true)) == nil, "session started")
	m := a.send(b, vfBytes("p", 2))
	pm := vfOuter(m.raw)
	ver, sm, mac := vfInner(pm.Message)
	c := vfU32("counter")
	vfAssume(c > 2000)
	if vfChoose("huge", 2) == 1 {
		vfAssume(c >= 1<<28)
	}
	sm.Counter = &c
	pm.Message = vfJoin(ver, sm, mac)
	snap := b.snap()
	var pt []byte
	var err error
	vfMustEnd(func() { pt, err = vfDeliver(a, b, 3, vfJoinOuter(pm)) })
	vfAssert(vfAnd(err != nil, len(pt) == 0), "a message too far ahead is refused")
	b.unchanged(snap, "after a message too far ahead")
	vfReach("far ahead")
}

// A chain that already holds the largest number of skipped keys does not grow.
func VC10_SkippedKeys() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfAssert(a.start(b, b.bundle(7, 5, true)) == nil, "session started")
	for n := vfChoose("chains before", 3); n > 0; n-- {
		a.send(b, []byte("x")).ok("first")
		b.send(a, []byte("y")).ok("answer")
	}
	late := a.send(b, []byte("late"))
	a.send(b, []byte("x")).ok("opens a chain")
	rec := vfRecord(b, "alice")
	cs := rec.CurrentSession.ReceiverChains
	c := cs[len(cs)-1]
	own := c.MessageKeys
	c.MessageKeys = nil
	oldest := vfChoose("oldest", 2) == 1 // the late message is the first to make room
	if oldest {
		c.MessageKeys = append(c.MessageKeys, own...)
	}
	for i := len(own); i < 2000; i++ {
		c.MessageKeys = append(c.MessageKeys, &vfpb10.SessionStructure_Chain_MessageKey{Index: uint32(1000000 + i), CipherKey: []byte{1}, MacKey: []byte{2}, Iv: []byte{3}})
	}
	if !oldest {
		c.MessageKeys = append(c.MessageKeys, own...)
	}
	raw, err := vfproto10.Marshal(rec)
	if err != nil {
		panic(err)
	}
	b.st.sess[vfSessKey("alice", vfDev)] = raw
	x1, x2 := a.send(b, []byte("x")), a.send(b, []byte("x"))
	a.send(b, []byte("y")).ok("skips some more")
	b.bounded("alice")
	x1.ok("a message just skipped")
	if !oldest {
		late.ok("a recently skipped message")
	}
	x2.ok("another message just skipped")
	vfReach("full")
}
