package axolotl

//vf:use session

import (
	"crypto/aes"
	"crypto/cipher"

	vfpb12 "github.com/signal-golang/textsecure/axolotl/protobuf"
)

func vfCBC(key, iv, blocks []byte) ([]byte, error) {
	c, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	out := make([]byte, len(blocks))
	cipher.NewCBCEncrypter(c, iv).CryptBlocks(out, blocks)
	return out, nil
}

// Any short byte string.
//
//vf:paths=3000
func VC12_AnyBytes() {
	n := vfChoose("n", 14+2*vfTier())
	b := vfBytes("b", n)
	LoadWhisperMessage(append([]byte{}, b...))
	vfReach("loaded")
}

// Any short byte string as a prekey message.
//
//vf:paths=3000
func VC12_AnyBytesPreKey() {
	n := vfChoose("n", 5+vfTier())
	b := vfBytes("b", n)
	LoadPreKeyWhisperMessage(append([]byte{}, b...))
	vfReach("loaded")
}

func vfField(name string, lens ...int) []byte {
	k := vfChoose(name+"len", len(lens)+1)
	if k == 0 {
		return nil
	}
	return vfBytes(name, lens[k-1])
}

// Session messages with fields present, absent and of odd lengths, in a session.
func VC12_Fields() {
	a, b := vfPair()
	sm := &vfpb12.SignalMessage{RatchetKey: vfField("key", 0, 1, 32, 33, 34, 65), Ciphertext: vfField("ct", 0, 1, 16, 31)}
	if vfChoose("counter", 2) == 1 {
		c := uint32(vfChoose("c", 3))
		sm.Counter = &c
	}
	if vfChoose("prev", 2) == 1 {
		c := vfU32("pc")
		sm.PreviousCounter = &c
	}
	raw := vfJoin(0x33, sm, vfBytes("mac", 8))
	snap := b.snap()
	pt, err := vfDeliver(a, b, 1, raw)
	if err != nil {
		vfAssert(len(pt) == 0, "no plaintext with an error")
		b.unchanged(snap, "after a malformed message")
	}
	vfReach("decided")
}

// Prekey messages with fields present, absent and of odd lengths.
func VC12_PreKeyFields() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	vfAssert(a.start(b, b.bundle(7, 5, true)) == nil, "session started")
	m := a.send(b, []byte("x"))
	pm := vfOuter(m.raw)
	switch vfChoose("what", 6) {
	case 0:
		pm.BaseKey = vfField("base", 0, 1, 32, 34, 64)
	case 1:
		pm.IdentityKey = vfField("id", 0, 1, 32, 34, 64)
	case 2:
		pm.Message = vfField("msg", 0, 1, 8, 9, 10, 12)
	case 3:
		pm.RegistrationId = nil
	case 4:
		pm.PreKeyId, pm.SignedPreKeyId = nil, nil
		if vfChoose("spk", 2) == 1 {
			s := vfU32("spkid")
			pm.SignedPreKeyId = &s
		}
	case 5:
		s := vfU32("pk")
		pm.PreKeyId = &s
		pm.BaseKey = vfField("base", 33)
	}
	pt, err := vfDeliver(a, b, 3, vfJoinOuter(pm))
	if err != nil {
		vfAssert(len(pt) == 0, "no plaintext with an error")
	}
	vfReach("decided")
}

// Genuine content under an authentic code, but of odd lengths: the peer itself
// sends a ciphertext that is not made of blocks or has odd padding.
func VC12_PeerOddCiphertext() {
	a, b := vfPair()
	rec := vfRecord(a, "bob")
	ch := rec.CurrentSession.SenderChain
	ck := newChainKey(ch.ChainKey.Key, ch.ChainKey.Index)
	mk, err := ck.getMessageKeys()
	if err != nil {
		panic(err)
	}
	n := []int{0, 1, 15, 16, 17, 32}[vfChoose("n", 6)]
	ct := vfBytes("ct", n)
	if n%16 == 0 && n > 0 && vfChoose("padded", 2) == 1 { // ciphertext of arbitrary blocks
		ct, err = vfCBC(mk.CipherKey, mk.Iv, vfBytes("blocks", n))
		if err != nil {
			panic(err)
		}
	}
	wm, err := newWhisperMessage(3, mk.MacKey, NewECPublicKey(ch.SenderRatchetKey), ch.ChainKey.Index, 0, ct,
		NewIdentityKey(rec.CurrentSession.LocalIdentityPublic), NewIdentityKey(rec.CurrentSession.RemoteIdentityPublic))
	if err != nil {
		panic(err)
	}
	vfDeliver(a, b, 1, wm.serialize())
	vfReach("decided")
}

// Messages for which there is no session.
func VC12_NoSession() {
	a, b := vfPair()
	c := vfNewParty("carol", 33)
	m := a.send(b, vfBytes("p", 2))
	pt, err := vfDeliver(a, c, 1, m.raw)
	vfAssert(vfAnd(err != nil, len(pt) == 0), "a message without session is refused")
	_, _, err = c.cipher("alice").SessionEncryptMessage([]byte("x"))
	vfAssert(err != nil, "encrypting without a session is an error")
	vfReach("decided")
}
