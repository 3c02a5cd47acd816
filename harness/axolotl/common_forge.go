package axolotl

import vfpb2 "github.com/signal-golang/textsecure/axolotl/protobuf"

// vfForge makes a bad message out of genuine ones: one that to has to refuse
// when it comes from from. own is a message sent by to (may be nil).
func vfForge(from, to *vfParty, m, own *vfMsg, archived bool) ([]byte, int32) {
	raw := m.raw
	if m.typ == 3 {
		raw = vfOuter(m.raw).Message
	}
	ver, sm, mac := vfInner(raw)
	ctr := sm.GetCounter()
	n := 9
	if own != nil {
		n = 10
	}
	switch vfChoose("forge", n) {
	case 0: // altered authentication code
		mask := vfU64("mask")
		vfAssume(mask != 0)
		if archived {
			mask <<= 32 // matching the code of another session by chance is out of scope
			vfAssume(mask != 0)
		}
		for i := range mac {
			mac[i] ^= byte(mask >> (8 * uint(i)))
		}
	case 1: // altered ciphertext
		mask := vfU8("mask")
		vfAssume(mask != 0)
		sm.Ciphertext[vfChoose("pos", len(sm.Ciphertext))] ^= mask
	case 2: // counter ahead
		c := ctr + uint32(1+vfChoose("ahead", 4))
		sm.Counter = &c
	case 3: // counter behind
		vfAssume(ctr > 0)
		c := ctr - 1
		sm.Counter = &c
	case 4: // counter far ahead
		c := vfU32("far")
		vfAssume(vfAnd(c > ctr+2001, c > 2001+ctr))
		sm.Counter = &c
	case 5: // a new ratchet key nobody knows
		k := NewECKeyPair().PublicKey.Serialize()
		sm.RatchetKey = k
	case 6: // previous counter altered
		d := vfU32("d")
		vfAssume(d != 0)
		c := sm.GetPreviousCounter() ^ d
		sm.PreviousCounter = &c
	case 7: // other version
		v := vfU8("ver")
		vfAssume(v != ver)
		ver = v
	case 8: // from a session with somebody else
		x := vfNewParty("mallory", 66)
		vfAssert(x.start(to, to.bundle(31, 32, false)) == nil, "another session")
		xm := x.send(to, []byte("x"))
		return vfOuter(xm.raw).Message, 1
	case 9: // the receiver's own message reflected
		oraw := own.raw
		if own.typ == 3 {
			oraw = vfOuter(own.raw).Message
		}
		ov, osm, omac := vfInner(oraw)
		switch vfChoose("reflect", 2) {
		case 0:
			return vfJoin(ov, osm, omac), 1
		case 1:
			osm.RatchetKey = sm.RatchetKey
			return vfJoin(ov, osm, omac), 1
		}
	}
	return vfJoin(ver, sm, mac), 1
}

var _ = vfpb2.SignalMessage{}
