package textsecure

//vf:use store
//vf:use peer
//vf:use receive

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// C07 in the client's store: identities recorded at first contact are the only
// ones trusted afterwards.

var vfNames = []string{vfPeer, "+491", "a/../b", ".."}

func VC07_Recorded() {
	dir, password := vfTempDir(), ""
	if vfChoose("encrypted", 2) == 1 {
		password = "secret"
	}
	s := vfOpen(dir, password)
	i := vfChoose("first", len(vfNames))
	p, q := vfNames[i], vfNames[(i+1)%len(vfNames)]
	k1, k2, k3 := vfBytes("first key", 32), vfBytes("key of another", 32), vfBytes("key presented", 32)
	vfAssert(vfAnd(s.IsTrustedIdentity(p, axolotl.NewIdentityKey(k3)), s.IsTrustedIdentity(q, axolotl.NewIdentityKey(k3))), "the first identity is trusted")
	vfAssert(s.SaveIdentity(p, axolotl.NewIdentityKey(k1)) == nil, "the identity is recorded")
	both := vfChoose("other known", 2) == 1
	if both {
		vfAssert(s.SaveIdentity(q, axolotl.NewIdentityKey(k2)) == nil, "the other identity is recorded")
	}
	switch vfChoose("restart", 2) {
	case 1:
		s = vfOpen(dir, password)
	}
	textSecureStore = s
	presented := axolotl.NewIdentityKey(k3)
	vfAssert(s.IsTrustedIdentity(p, presented) == vfEq(k1, k3), "only the identity recorded is trusted")
	if both {
		vfAssert(s.IsTrustedIdentity(q, presented) == vfEq(k2, k3), "and for every correspondent their own")
	} else {
		vfAssert(s.IsTrustedIdentity(q, presented), "a correspondent without one can present any")
	}
	vfReach("judged")
}

// An identity on record that cannot be read is no reason to trust another.
func VC07_Unreadable() {
	dir := vfTempDir()
	s := vfOpen(dir, "secret")
	k := make([]byte, 32)
	vfAssert(s.SaveIdentity(vfPeer, axolotl.NewIdentityKey(k)) == nil, "the identity is recorded")
	switch vfChoose("how", 3) {
	case 0:
		s = vfOpen(dir, "other")
	case 1:
		for _, f := range vfFiles(dir) {
			os.WriteFile(f, nil, 0600)
		}
	case 2:
		for _, f := range vfFiles(dir) {
			b, err := os.ReadFile(f)
			if err != nil {
				panic(err.Error())
			}
			b[len(b)-1-[]int{0, 31, 32, 60}[vfChoose("byte", 4)]] ^= 1
			os.WriteFile(f, b, 0600)
		}
	}
	other := make([]byte, 32)
	other[vfChoose("at", 32)] = 1
	vfAssert(!s.IsTrustedIdentity(vfPeer, axolotl.NewIdentityKey(other)), "another identity is not trusted although the record is unreadable")
	vfReach("refused")
}

// vfHello is a first message of the device to the client.
func vfHello(s *store, d *vfPeerDevice, text string) *signalservice.Envelope {
	n := uint32(40 + d.prekeys)
	d.prekeys++
	spk := axolotl.NewECKeyPair()
	if s.StoreSignedPreKey(n, axolotl.NewSignedPreKeyRecord(n, 1, spk, make([]byte, 64))) != nil {
		panic("prekey not stored")
	}
	if err := axolotl.NewSessionBuilder(d.st, d.st, d.st, d.st, vfSelf, 1).BuildSenderSession(vfSignedBundle(identityKey, n, spk)); err != nil {
		panic("session: " + err.Error())
	}
	ts := uint64(5)
	plain, err := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: vfStr(text), Timestamp: &ts}})
	if err != nil {
		panic(err.Error())
	}
	ct, typ, err := axolotl.NewSessionCipher(d.st, d.st, d.st, d.st, vfSelf, 1).SessionEncryptMessage(padMessage(plain))
	if err != nil || typ != 3 {
		panic("not encrypted as a first message")
	}
	t := signalservice.Envelope_PREKEY_BUNDLE
	dev, peer := uint32(1), vfPeer
	return &signalservice.Envelope{Type: &t, SourceUuid: &peer, SourceDevice: &dev, ServerTimestamp: &ts, Content: ct}
}

// First contact by a message sent or received, then somebody else under the
// same name: nothing of theirs reaches the application, and nothing goes to
// them.
//
//vf:fixedrand
func VC07_Client() {
	dir := vfTempDir()
	real := vfNewDevice(filepath.Join(dir, "real"), 1, 99, axolotl.GenerateIdentityKeyPair())
	fake := vfNewDevice(filepath.Join(dir, "fake"), 1, 98, axolotl.GenerateIdentityKeyPair())
	current := real
	taken, stale := 0, false
	app, s := vfReceiver(true, func(r *vftransport.VfReq) vftransport.VfAnswer {
		if vfKeysFor(r) != 0 {
			return vftransport.VfAnswer{Status: 200, Body: vfJSON(current.bundle())}
		}
		if r.Method == "PUT" && strings.Contains(r.URL, "/v1/messages/") {
			if stale {
				stale = false
				return vftransport.VfAnswer{Status: 410, Body: []byte(`{"staleDevices":[1]}`)}
			}
			taken++
			return vftransport.VfAnswer{Status: 200, Body: []byte(`{"needsSync":false}`)}
		}
		return vftransport.VfAnswer{Status: 404}
	})
	s.SetLocalRegistrationID(77)
	byMessage := vfChoose("first contact", 2) == 1
	if byMessage {
		vfAssert(handleReceivedMessage(vfHello(s, real, "hi")) == nil && len(app.msgs) == 1, "a first message is received")
	} else {
		_, err := SendMessage(vfPeer, "hi", 0)
		vfAssert(err == nil && taken == 1, "a first message is sent")
	}
	key, err := ContactIdentityKey(vfPeer)
	vfAssert(err == nil && string(key) == string(real.id.PublicKey.Serialize()), "the identity met first is recorded")
	told, sent := app.told(), taken
	current = fake
	if vfChoose("session gone", 2) == 1 {
		s.DeleteAllSessions(vfPeer)
	}
	switch vfChoose("then", 2) {
	case 0:
		err := handleReceivedMessage(vfHello(s, fake, "it is me"))
		vfAssert(err != nil, "a message under another identity is refused")
	case 1:
		stale = s.ContainsSession(vfPeer, 1)
		_, err := SendMessage(vfPeer, "secret", 0)
		vfAssert(err != nil, "a message to another identity is not sent")
	}
	vfAssert(app.told() == told, "nothing under another identity reaches the application")
	vfAssert(taken == sent, "nothing is sent to another identity")
	key, err = ContactIdentityKey(vfPeer)
	vfAssert(err == nil && string(key) == string(real.id.PublicKey.Serialize()), "the identity on record stays the one met first")
	vfReach("refused")
}
