package textsecure

//vf:use store

import (
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/fingerprint"
)

// C24: the safety number the application shows is that of the account and of
// the identity recorded for the contact, so both ends show the same.

var vfTels = []string{"+4930123", "+1"}

// vfShown is the safety number one of two correspondents is shown.
func vfShown(me int, ids []string, keys []*axolotl.IdentityKeyPair) ([]string, []byte) {
	other := 1 - me
	textSecureStore = vfOpen(vfTempDir(), "")
	identityKey = keys[me]
	config.ConfigFile = &config.Config{Tel: vfTels[me], UUID: ids[me]}
	if textSecureStore.SetIdentityKeyPair(identityKey) != nil {
		panic("identity key not stored")
	}
	stranger := make([]byte, 32)
	stranger[3] = 7
	if textSecureStore.SaveIdentity(ids[other], axolotl.NewIdentityKey(keys[other].PublicKey.Key()[:])) != nil ||
		textSecureStore.SaveIdentity("33333333-2222-4333-8444-555555555555", axolotl.NewIdentityKey(stranger)) != nil {
		panic("identity not stored")
	}
	numbers, code, err := GetFingerprint(ids[other], vfTels[other])
	vfAssert(err == nil, "a safety number is shown")
	return numbers, code
}

//vf:fixedrand
func VC24_Shown() {
	ids := []string{vfPeer, "11111111-2222-4333-8444-555555555555"}
	keys := []*axolotl.IdentityKeyPair{axolotl.GenerateIdentityKeyPair(), axolotl.GenerateIdentityKeyPair()}
	me := vfChoose("side", 2)
	n1, q1 := vfShown(me, ids, keys)
	k := func(i int) []axolotl.ECPublicKey {
		return []axolotl.ECPublicKey{*axolotl.NewECPublicKey(keys[i].PublicKey.Key()[:])}
	}
	n2, q2, err := fingerprint.CreateFingerprint(1, []byte(vfTels[me]), k(me), []byte(vfTels[1-me]), k(1-me))
	vfAssert(err == nil && len(n1) == 12 && len(n2) == 12, "the safety number is complete")
	for i := range n2 {
		vfAssert(n1[i] == n2[i], "it is that of the two identities and numbers")
	}
	c1, e1 := fingerprint.ScanQRFingerprint(q1)
	c2, e2 := fingerprint.ScanQRFingerprint(q2)
	vfAssert(e1 == nil && e2 == nil, "the codes can be scanned")
	vfAssert(vfEq(c1.LocalFingerprint.Content, c2.LocalFingerprint.Content) && vfEq(c1.RemoteFingerprint.Content, c2.RemoteFingerprint.Content), "and so is the code")
	_, _, err = GetFingerprint("44444444-2222-4333-8444-555555555555", vfTels[1-me])
	vfAssert(err != nil, "nothing is shown for a contact without identity")
	vfReach("shown")
}
