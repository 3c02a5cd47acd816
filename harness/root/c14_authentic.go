package textsecure

//vf:use store

import (
	"bytes"
	"os"

	"github.com/signal-golang/textsecure/axolotl"
)

// C14: stored data is authentic.

// What is written reads back the same, also after reopening the store.
func VC14_RoundTrip() {
	dir := vfTempDir()
	pw := []string{"secret", ""}[vfChoose("pw", 2)]
	k := vfKinds[vfChoose("kind", len(vfKinds))]
	v := vfBytes("v", k.n)
	s := vfOpen(dir, pw)
	vfAssert(k.put(s, append([]byte{}, v...)) == nil, "saving succeeds")
	a, err := k.get(s)
	vfAssert(err == nil, "what was saved can be read")
	b, err2 := k.get(vfOpen(dir, pw))
	vfAssert(err2 == nil, "also after reopening the store")
	vfAssert(vfEq(a, b), "with the same content")
	switch k.name {
	case "registration id":
		for i := range v {
			vfAssert(a[i] == v[i], "which is what was saved")
		}
	case "identity key pair", "identity", "password", "signaling key":
		vfAssert(vfEq(a, v), "which is what was saved")
	case "session":
		w, _ := vfSession(v).Serialize()
		vfAssert(vfEq(a, w), "which is what was saved")
	case "prekey":
		r, err := s.LoadPreKey(5)
		vfAssert(err == nil && r.Pkrs.Id == 5 && vfEq(r.Pkrs.PrivateKey, v), "which is what was saved")
	case "signed prekey":
		r, err := s.LoadSignedPreKey(6)
		vfAssert(err == nil && r.Spkrs.Id == 6 && vfEq(r.Spkrs.PrivateKey, v), "which is what was saved")
	}
	vfReach("read back " + k.name)
}

// The content is not readable in the stored file, and the salt chosen for a
// new store is used when it is opened again.
//
//vf:fixedrand
func VC14_NewStore() {
	dir := vfTempDir()
	s, err := newStore("secret", dir)
	vfAssert(err == nil, "a store can be created")
	k := vfKinds[2]
	v := bytes.Repeat([]byte{0xa5, 0x5a}, 16)
	vfAssert(k.put(s, v) == nil, "saving succeeds")
	for _, f := range vfFiles(dir) {
		b, _ := os.ReadFile(f)
		vfAssert(!bytes.Contains(b, v[:8]), "stored files do not show their content")
	}
	s2, err := newStore("secret", dir)
	vfAssert(err == nil, "a store can be opened again")
	w, err := k.get(s2)
	vfAssert(err == nil && bytes.Equal(w, v), "and has its content")
	s3, err := newStore("secreu", dir)
	vfAssert(err == nil, "opening does not need the password")
	_, err = k.get(s3)
	vfAssert(err != nil, "another password does not read it")
	vfReach("reopened")
}

// With another password nothing can be read.
func VC14_WrongPassword() {
	dir := vfTempDir()
	k := vfKinds[vfChoose("kind", len(vfKinds))]
	v := vfBytes("v", k.n)
	vfAssert(k.put(vfOpen(dir, "secret"), append([]byte{}, v...)) == nil, "saving succeeds")
	s := vfOpen(dir, "other")
	_, err := k.get(s)
	vfAssert(err != nil, "another password does not read it: "+k.name)
	if k.name == "identity" {
		vfAssert(!s.IsTrustedIdentity(vfPeer, axolotl.NewIdentityKey(v)), "an unreadable identity is not trusted")
	}
	vfReach("refused")
}

// Any change of a stored file is reported as an error.
//
//vf:fixedrand
func VC14_Damage() {
	dir := vfTempDir()
	k := vfKinds[vfChoose("kind", len(vfKinds))]
	v := make([]byte, k.n)
	for i := range v {
		v[i] = byte(i*7 + 1)
	}
	s := vfOpen(dir, "secret")
	vfAssert(k.put(s, append([]byte{}, v...)) == nil, "saving succeeds")
	fs := vfFiles(dir)
	vfAssert(len(fs) == 1, "one file per value")
	b, err := os.ReadFile(fs[0])
	vfAssert(err == nil, "the file is there")
	n := len(b)
	switch vfChoose("how", 4) {
	case 0: // one byte altered
		d := vfU8("d")
		vfAssume(d != 0)
		pos := []int{0, 15, 16, n - 33, n - 32, n - 1, 1, 17, n - 17, n - 16, n - 31, n / 2}[vfChoose("pos", 6+6*vfTier())]
		b[pos] ^= d
	case 1: // cut short
		cut := []int{0, 1, 16, 31, 32, 33, 48, n - 1, n - 16, n - 32}[vfChoose("cut", 10)]
		b = b[:cut]
	case 2: // extended
		m := []int{1, 16, 32}[vfChoose("more", 3)]
		if vfChoose("front", 2) == 1 {
			b = append(append([]byte{}, b[:m]...), b...)
		} else {
			b = append(b, b[n-m:]...)
		}
	case 3: // the code of the content replaced by the code of nothing at all
		for i := n - 32; i < n; i++ {
			b[i] = 0
		}
	}
	if os.WriteFile(fs[0], b, 0600) != nil {
		panic("write")
	}
	if vfChoose("reopen", 2) == 1 {
		s = vfOpen(dir, "secret")
	}
	_, err = k.get(s)
	vfAssert(err != nil, "a changed file is reported: "+k.name)
	if k.name == "identity" {
		vfAssert(!s.IsTrustedIdentity(vfPeer, axolotl.NewIdentityKey(v)), "a changed identity file is not trusted")
	}
	vfReach("refused")
}

// A file of any short content is refused.
func VC14_AnyFile() {
	dir := vfTempDir()
	k := vfKinds[vfChoose("kind", len(vfKinds))]
	s := vfOpen(dir, "secret")
	vfAssert(k.put(s, make([]byte, k.n)) == nil, "saving succeeds")
	fs := vfFiles(dir)
	b := vfBytes("content", vfLen("n", 0, 33))
	if os.WriteFile(fs[0], b, 0600) != nil {
		panic("write")
	}
	_, err := k.get(s)
	vfAssert(err != nil, "arbitrary content is reported: "+k.name)
	vfReach("refused")
}

// The prekeys are loaded for registration only if all of them are intact.
//
//vf:fixedrand
func VC14_LoadPreKeys() {
	dir := vfTempDir()
	s := vfOpen(dir, "secret")
	textSecureStore = s
	for _, id := range []uint32{5, 6, lastResortPreKeyID} {
		vfAssert(s.StorePreKey(id, vfPreKeyRec(id, nil)) == nil, "saving succeeds")
	}
	vfAssert(loadPreKeys() == nil && len(preKeyRecords) == 3, "all prekeys are loaded")
	fs := vfFiles(s.preKeysDir)
	f := fs[vfChoose("which", 3)]
	b, _ := os.ReadFile(f)
	if vfChoose("how", 2) == 0 {
		b[len(b)-1] ^= 1 + vfU8("d")&0x7f
	} else {
		b = b[:vfLen("cut", 0, 40)]
	}
	os.WriteFile(f, b, 0600)
	vfAssert(loadPreKeys() != nil, "a damaged prekey is reported")
	vfReach("refused")
}
