package textsecure

//vf:use store

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/signal-golang/textsecure/axolotl"
)

// C16: stored sessions are kept apart by correspondent and device.

// vfID is an id received from outside: any short string, or one of a list.
func vfID(name string) string {
	ids := []string{vfPeer, "49170000000", "../identity/remote_" + vfPeer, "../../beside", vfPeer + "_2", "..", "a/../../b", "%2F", "../sessions/" + vfPeer, "./" + vfPeer, "/etc/x", vfPeer + "\x00"}
	if i := vfChoose(name+" from", len(ids)+3); i < len(ids) {
		return ids[i]
	} else {
		return vfString(name, i-len(ids)+1)
	}
}

func vfSessionTag(s *store, id string, dev uint32) (byte, bool) {
	if !s.ContainsSession(id, dev) {
		return 0, false
	}
	r, err := s.LoadSession(id, dev)
	if err != nil {
		panic("stored session does not load: " + err.Error())
	}
	b, _ := r.Serialize()
	for _, t := range []byte{0xa1, 0xb2, 0xc3} {
		w, _ := vfSession([]byte{t, t, t, t}).Serialize()
		if vfEq(b, w) {
			return t, true
		}
	}
	panic("unknown session content")
}

func vfPut(s *store, id string, dev uint32, t byte) bool {
	return s.StoreSession(id, dev, vfSession([]byte{t, t, t, t})) == nil
}

// An operation on one correspondent and device does not touch another.
func VC16_Sessions() {
	dir := vfTempDir()
	s := vfOpen(dir, "")
	ida, idb := vfPeer, vfID("id")
	if vfChoose("same", 2) == 1 {
		ida = idb
	}
	da, db := uint32(vfInt("da", 1, 12)), uint32(vfInt("db", 1, 12))
	vfAssume(vfOr(ida != idb, da != db))
	if !vfPut(s, ida, da, 0xa1) || s.ContainsSession(idb, db) {
		vfAssert(!s.ContainsSession(idb, db), "a session is found under its own id and device only")
		return // names no file can have
	}
	switch vfChoose("op", 4) {
	case 0:
		if !vfPut(s, idb, db, 0xb2) {
			return
		}
		t, ok := vfSessionTag(s, idb, db)
		vfAssert(vfAnd(ok, t == 0xb2), "the session stored for the other is kept")
	case 1:
		s.DeleteSession(idb, db)
	case 2:
		vfAssume(ida != idb)
		s.DeleteAllSessions(idb)
	case 3:
		r, err := s.LoadSession(idb, db)
		vfAssert(err != nil || r.Fresh, "no session of another is read")
	}
	t, ok := vfSessionTag(s, ida, da)
	vfAssert(vfAnd(ok, t == 0xa1), "the session of one correspondent and device is untouched")
	vfReach("apart")
}

// All and only the sessions of a correspondent are listed and deleted.
func VC16_DeleteAll() {
	dir := vfTempDir()
	pw := []string{"", "secret"}[vfChoose("pw", 2)]
	s := vfOpen(dir, pw)
	me := []string{vfPeer, "a", "a_1", "a%"}[vfChoose("me", 4)]
	other := []string{vfPeer + "_1", vfPeer[:35], "a", "a_1", "a_1_1", "_1", "A", "a%"}[vfChoose("other", 8)]
	vfAssume(me != other)
	d1, d2 := uint32(vfInt("d1", 1, 12+87*vfTier())), []uint32{2, 11, 21, 1000000000, 1<<32 - 1}[vfChoose("d2", 5)]
	vfAssume(d1 != d2)
	vfAssert(vfPut(s, me, d1, 0xa1) && vfPut(s, me, d2, 0xb2) && vfPut(s, other, d1, 0xc3), "sessions are stored")
	l := s.GetSubDeviceSessions(me)
	vfAssert(len(l) == 2, "all and only the correspondent's devices are listed")
	if len(l) == 2 {
		vfAssert(vfOr(vfAnd(l[0] == d1, l[1] == d2), vfAnd(l[0] == d2, l[1] == d1)), "with their numbers")
	}
	if vfChoose("reopen", 2) == 1 {
		s = vfOpen(dir, pw)
	}
	s.DeleteAllSessions(me)
	vfAssert(!s.ContainsSession(me, d1) && !s.ContainsSession(me, d2), "all sessions of the correspondent are deleted")
	vfAssert(len(s.GetSubDeviceSessions(me)) == 0, "and no longer listed")
	t, ok := vfSessionTag(s, other, d1)
	vfAssert(vfAnd(ok, t == 0xc3), "and only theirs")
	vfReach("deleted")
}

// The identity keys of correspondents whose identifiers look alike are each
// recorded, checked and found under their own.
func VC16_Identities() {
	dir := vfTempDir()
	pw := []string{"", "secret"}[vfChoose("pw", 2)]
	s := vfOpen(dir, pw)
	pairs := [][2]string{{"+4917000", "4917000"}, {vfPeer, "0A1B2C3D-4E5F-4A6B-8C7D-9E0F1A2B3C4D"}, {vfPeer, vfPeer[:35]}, {vfPeer, " " + vfPeer}, {vfPeer, vfPeer + " "},
		{vfPeer, "0a1b2c3d4e5f4a6b8c7d9e0f1a2b3c4d"}, {"a b", "a+b"}, {"a/b", "a%2Fb"}, {"a", "./a"}, {"a", "x/../a"}, {"a", "remote_a"}, {"a", "a_1"}, {"004917", "+4917"}, {"", "remote_"}, {"a", "a\n"}}
	p := pairs[vfChoose("pair", len(pairs))]
	x, y := p[0], p[1]
	if vfChoose("swap", 2) == 1 {
		x, y = y, x
	}
	kx, ky := axolotl.NewIdentityKey(vfSeq(32, 1)), axolotl.NewIdentityKey(vfSeq(32, 2))
	vfAssert(s.SaveIdentity(x, kx) == nil, "an identity is recorded")
	vfAssert(s.IsTrustedIdentity(y, ky), "the first key of a correspondent is trusted, whatever others' keys are")
	vfAssert(s.SaveIdentity(y, ky) == nil, "an identity is recorded")
	if vfChoose("reopen", 2) == 1 {
		s = vfOpen(dir, pw)
	}
	vfAssert(s.IsTrustedIdentity(x, kx), "each has the key recorded for them")
	vfAssert(!s.IsTrustedIdentity(x, ky), "and not another's")
	vfAssert(s.IsTrustedIdentity(y, ky), "each has the key recorded for them")
	vfAssert(!s.IsTrustedIdentity(y, kx), "and not another's")
	vfReach("identities")
}

// The sessions of correspondents whose identifiers look alike are apart, too.
func VC16_LookAlikes() {
	dir := vfTempDir()
	s := vfOpen(dir, "")
	pairs := [][2]string{{"+4917000", "4917000"}, {vfPeer, "0A1B2C3D-4E5F-4A6B-8C7D-9E0F1A2B3C4D"}, {vfPeer, vfPeer[:35]}, {vfPeer, " " + vfPeer}, {vfPeer, vfPeer + " "},
		{vfPeer, "0a1b2c3d4e5f4a6b8c7d9e0f1a2b3c4d"}, {"a b", "a+b"}, {"a/b", "a%2Fb"}, {"a", "./a"}, {"a", "a_1"}, {"004917", "+4917"}, {"", "_1"}, {"a", "a\n"}}
	p := pairs[vfChoose("pair", len(pairs))]
	x, y := p[0], p[1]
	if vfChoose("swap", 2) == 1 {
		x, y = y, x
	}
	vfAssert(vfPut(s, x, 1, 0xa1), "a session is stored")
	vfAssert(!s.ContainsSession(y, 1), "nobody has another's session")
	vfAssert(len(s.GetSubDeviceSessions(y)) == 0, "nor is it listed")
	vfAssert(vfPut(s, y, 1, 0xb2) && vfPut(s, y, 3, 0xc3), "a session is stored")
	vfAssert(len(s.GetSubDeviceSessions(x)) == 1 && len(s.GetSubDeviceSessions(y)) == 2, "each correspondent's sessions are listed")
	switch vfChoose("op", 3) {
	case 1:
		s.DeleteAllSessions(y)
	case 2:
		s.DeleteSession(y, 1)
	}
	t, ok := vfSessionTag(s, x, 1)
	vfAssert(ok && t == 0xa1, "and are only theirs")
	vfReach("look-alikes")
}

// A prekey is found, replaced and removed under its own id only.
func VC16_PreKeys() {
	dir := vfTempDir()
	s := vfOpen(dir, "")
	ids := []uint32{0, 1, 9, 10, 0xfffffe, 0xffffff, 0x1000001, 100000001, 999999999, 1000000001, 1 << 31, 1<<31 + 1, 1<<32 - 1}
	i, j := vfChoose("one", len(ids)), vfChoose("other", len(ids))
	vfAssume(i != j)
	a, b := ids[i], ids[j]
	signed := vfChoose("signed", 2) == 1
	put := func(id uint32, n int) error {
		if signed {
			kp := axolotl.NewECKeyPair()
			copy(kp.PrivateKey.Key()[:], vfSeq(32, n))
			return s.StoreSignedPreKey(id, axolotl.NewSignedPreKeyRecord(id, 1, kp, vfSeq(64, n)))
		}
		return s.StorePreKey(id, vfPreKeyRec(id, vfSeq(32, n)))
	}
	is := func(id uint32, n int) bool {
		if signed {
			r, err := s.LoadSignedPreKey(id)
			return err == nil && s.ContainsSignedPreKey(id) && r.Spkrs.Id == id && vfEq(r.Spkrs.PrivateKey, vfSeq(32, n))
		}
		r, err := s.LoadPreKey(id)
		return err == nil && s.ContainsPreKey(id) && r.Pkrs.Id == id && vfEq(r.Pkrs.PrivateKey, vfSeq(32, n))
	}
	vfAssert(put(a, 1) == nil && is(a, 1), "a prekey is stored under its id")
	if signed {
		vfAssert(!s.ContainsSignedPreKey(b) && !s.ContainsPreKey(a), "and no other")
	} else {
		vfAssert(!s.ContainsPreKey(b) && !s.ContainsSignedPreKey(a), "and no other")
	}
	vfAssert(put(b, 2) == nil && is(a, 1) && is(b, 2), "each has its own id")
	if signed {
		s.RemovePreKey(a)
		s.RemoveSignedPreKey(b)
	} else {
		s.RemoveSignedPreKey(a)
		s.RemovePreKey(b)
	}
	vfAssert(is(a, 1), "and only the one named is removed")
	vfAssert(!is(b, 2), "which is gone")
	vfReach("prekeys")
}

// Whatever the id is, only files in the directory meant for them change.
func VC16_Inside() {
	dir := vfTempDir()
	s := vfOpen(filepath.Join(dir, "a", "b", "c"), "")
	s.SetLocalRegistrationID(77)
	for _, d := range []string{"a", "a/b"} {
		os.WriteFile(filepath.Join(dir, d, "beside_1"), []byte("x"), 0600)
	}
	s.SaveIdentity(vfPeer, axolotl.NewIdentityKey(vfSeq(32, 1)))
	id := vfID("id")
	// an id no other data is kept under
	in := s.sessionsDir
	before := vfTree(dir)
	switch vfChoose("op", 5) {
	case 0:
		vfPut(s, id, 1, 0xa1)
	case 1:
		s.DeleteSession(id, 1)
	case 2:
		s.DeleteAllSessions(id)
	case 3:
		vfAssume(id != vfPeer)
		s.SaveIdentity(id, axolotl.NewIdentityKey(vfSeq(32, 2)))
		in = s.identityDir
		b, err := s.readFile(filepath.Join(s.identityDir, "remote_"+vfPeer))
		vfAssert(err == nil && vfEq(b, vfSeq(32, 1)), "the identity recorded for another is kept")
		for k := range before {
			vfAssert(vfHas(dir, k, before[k]), "no existing file changes")
		}
	case 4: // nothing outside is read
		vfAssume(id != vfPeer)
		vfAssert(s.IsTrustedIdentity(id, axolotl.NewIdentityKey(vfSeq(32, 2))), "nobody's identity key is another's")
		_, err := s.LoadSession(id, 1)
		vfAssert(err == nil || strings.Contains(id, "\x00"), "no other file is read as a session")
	}
	for k, v := range vfTree(dir) {
		if filepath.Dir(k) != in {
			vfAssert(vfEq([]byte(v), []byte(before[k])), "a file outside the directory changed or appeared")
		}
	}
	for k, v := range before {
		vfAssert(vfHas(dir, k, v), "no existing file changes")
	}
	vfReach("inside")
}

func vfSeq(n, from int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i + from)
	}
	return b
}

func vfTree(dir string) map[string]string {
	out := map[string]string{}
	for _, f := range vfFiles(dir) {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err.Error())
		}
		out[f] = "=" + string(b)
	}
	return out
}
func vfHas(dir, f, v string) bool {
	b, err := os.ReadFile(f)
	return err == nil && vfEq([]byte("="+string(b)), []byte(v))
}
