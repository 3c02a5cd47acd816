package textsecure

//vf:use signup

import (
	"encoding/base64"
	"os"
	"path/filepath"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/crayfish"
	"github.com/signal-golang/textsecure/curve25519sign"
)

// C43: a registration is complete, or is done again.

// vfComplete checks that what the server and the backend were told about the
// account is what the client has after a restart.
func vfComplete(w *vfSignup) {
	p := w.published
	if p == nil {
		vfAssert(false, "a client that counts as registered has published its prekeys")
		return
	}
	s, err := newStore("", w.store)
	vfAssert(err == nil, "the store can be opened")
	id, err := s.GetIdentityKeyPair()
	vfAssert(err == nil, "the identity key is stored")
	vfAssert(vfEq(vfKeyBytes(p.IdentityKey), id.PublicKey.Serialize()), "the published identity key is the stored one")
	vfAssert(len(p.PreKeys) > 0 && p.LastResortKey.KeyID == lastResortPreKeyID, "one-time prekeys and the last-resort key are published")
	for _, k := range append(p.PreKeys, p.LastResortKey) {
		r, err := s.LoadPreKey(k.KeyID)
		if err != nil {
			vfAssert(false, "a published prekey is stored")
			continue
		}
		vfAssert(vfEq(vfKeyBytes(k.PublicKey), axolotl.NewECPublicKey(r.Pkrs.PublicKey).Serialize()), "a published prekey is the stored one")
	}
	r, err := s.LoadSignedPreKey(p.SignedPreKey.KeyID)
	vfAssert(err == nil, "the published signed prekey is stored")
	pub := vfKeyBytes(p.SignedPreKey.PublicKey)
	vfAssert(vfEq(pub, axolotl.NewECPublicKey(r.Spkrs.PublicKey).Serialize()), "the published signed prekey is the stored one")
	var sig [64]byte
	copy(sig[:], vfKeyBytes(p.SignedPreKey.Signature))
	vfAssert(curve25519sign.Verify(*id.PublicKey.Key(), pub, &sig), "the stored identity signed the signed prekey")

	pw, err := s.loadHTTPPassword()
	vfAssert(err == nil && pw == w.password, "the password the account has is the stored one")
	key, err := s.loadHTTPSignalingKey()
	vfAssert(err == nil, "the signaling key is stored")
	vfAssert(vfEq(key, w.key), "the signaling key the account has is the stored one")
	_, err = s.GetLocalRegistrationID()
	vfAssert(err == nil, "the registration id is stored")
	vfAssert(w.auth == "Basic "+base64.StdEncoding.EncodeToString([]byte(w.uuid+":"+w.password)), "the prekeys are published by the account")

	c, err := ReadConfig(w.conf)
	vfAssert(err == nil, "the settings can be read")
	vfAssert(c.UUID == w.uuid && c.Tel == w.number && w.number == "+4930123", "the settings name the account and its number")
	vfAssert(c.Name == "Alice" && w.name == "Alice", "the account has the user's name")
}

// A registration that goes well.
//
//vf:fixedrand
func VC43_Registered() {
	w := vfNewSignup()
	if vfChoose("earlier", 2) == 1 { // settings of an earlier account
		c, err := ReadConfig(w.conf)
		vfAssert(err == nil, "the settings can be read")
		c.Tel, c.UUID, c.Name = "+49300", "0f0e0d0c-0b0a-4908-8706-050403020199", "Old"
		c.ProfileKey, c.ProfileKeyCredential, c.Certificate = make([]byte, 32), []byte{1}, []byte{2}
		vfAssert(WriteConfig(w.conf, c) == nil, "the settings can be written")
	}
	w.start()
	vfAssert(w.verified == 1 && w.uploads == 1, "the account is registered once")
	vfAssert(w.done > 0, "the application is told")
	vfComplete(w)
	c, err := ReadConfig(w.conf)
	vfAssert(err == nil && len(c.ProfileKey) == 32, "the account has a profile key")
	vfAssert(len(c.ProfileKeyCredential) == 0 && string(c.Certificate) != string([]byte{2}), "what an earlier account was given is dropped")
	vfAssert(!vfEq(c.ProfileKey, make([]byte, 32)), "the profile key is new")
	crayfish.Instance.HandleEnvelope([]byte{1})
	vfAssert(len(w.local) == 1 && w.local[0] == w.uuid, "messages are decrypted for the account that was registered")
	w.stop()
	w.start()
	vfAssert(w.verified == 1 && w.uploads == 1, "a registered client does not register again")
	vfComplete(w)
	w.stop()
	vfReach("registered")
}

// A step of the registration fails: this is reported, the application is not
// told that it is registered, and the next start registers again.
//
//vf:fixedrand
func VC43_Fails() {
	w := vfNewSignup()
	steps := []string{"no settings", "settings lost", "no backend", "backend gone", "wrong code", "no account", "upload refused", "upload lost", "disk", "settings kept", "regid", "http_password", "http_signaling_key", "identity_key", "damaged prekey"}
	k := vfChoose("fails", len(steps))
	w.fail = steps[k]
	obstacle := ""
	if k > 9 { // what belongs to the account cannot be stored
		obstacle = filepath.Join(w.store, "identity", w.fail)
		if w.fail == "damaged prekey" { // or read again
			obstacle = filepath.Join(w.store, "prekeys", "000000005")
		}
		vfAssert(os.MkdirAll(filepath.Dir(obstacle), 0700) == nil, "there is an obstacle")
		if w.fail == "damaged prekey" {
			vfAssert(os.WriteFile(obstacle, []byte{0xff}, 0600) == nil, "there is an obstacle")
		} else {
			vfAssert(os.Mkdir(obstacle, 0700) == nil, "there is an obstacle")
		}
	}
	err := w.start()
	vfAssert(err != nil, "a failed registration is reported")
	vfAssert(w.done == 0, "the application is not told that it is registered")
	w.stop()
	n := w.verified
	if obstacle != "" {
		vfAssert(os.Remove(obstacle) == nil, "the obstacle is gone")
	}
	if w.fail == "settings kept" {
		w.unblock()
	}
	if w.fail == "disk" {
		vfAssert(os.Rename(filepath.Join(w.store, "gone"), filepath.Join(w.store, "signed_prekeys")) == nil, "the directory is back")
	}
	w.fail = ""
	w.start()
	vfAssert(w.verified == n+1 && w.uploads == 1, "the next start registers again")
	vfAssert(w.done > 0, "the application is told")
	vfComplete(w)
	w.stop()
	vfReach("reported")
}

// The client stops at any moment of the registration: the next start registers
// again, or everything is in place.
//
//vf:fixedrand
func VC43_Crash() {
	w := vfNewSignup()
	crashed := vfCrash(func() { w.start() })
	w.stop()
	n := w.uploads
	w.start()
	if w.uploads == n {
		vfReach("in place")
	} else {
		vfAssert(w.uploads == n+1, "a client registers once")
		vfReach("again")
	}
	if crashed {
		vfReach("interrupted")
	}
	vfComplete(w)
	c, err := ReadConfig(w.conf)
	vfAssert(err == nil && len(c.ProfileKey) == 32, "the account has a profile key")
	vfAssert(config.ConfigFile.UUID == w.uuid, "the client uses the account")
	w.stop()
}
