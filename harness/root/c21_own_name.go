package textsecure

//vf:use receive
//vf:use peer

import (
	"bytes"
	"path/filepath"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// C21: peers act only in their own name.

// Every kind of synchronisation the client acts on.
func vfSyncMessage() *signalservice.SyncMessage {
	ts := uint64(5)
	switch vfChoose("sync", 7) {
	case 0, 1, 2:
		f := uint32(vfInt("flags", 0, 7))
		return &signalservice.SyncMessage{Sent: &signalservice.SyncMessage_Sent{
			DestinationE164: vfStr(vfPeer), DestinationUuid: vfStr(vfPeer), Timestamp: &ts,
			Message: &signalservice.DataMessage{Body: vfStr("hi"), Timestamp: &ts, Flags: &f, ProfileKey: make([]byte, 32)},
		}}
	case 3:
		t := signalservice.SyncMessage_Request_CONTACTS
		return &signalservice.SyncMessage{Request: &signalservice.SyncMessage_Request{Type: &t}}
	case 4:
		t := signalservice.SyncMessage_Request_GROUPS
		return &signalservice.SyncMessage{Request: &signalservice.SyncMessage_Request{Type: &t}}
	case 5:
		return &signalservice.SyncMessage{Read: []*signalservice.SyncMessage_Read{{SenderUuid: vfStr(vfPeer), Timestamp: &ts}}}
	}
	return &signalservice.SyncMessage{Verified: &signalservice.Verified{DestinationUuid: vfStr(vfPeer)}}
}

func vfOther() string {
	switch vfChoose("sender", 5) {
	case 0:
		return ""
	case 1:
		return vfPeer
	case 2:
		return vfSelf + "x"
	case 3:
		return "+4917" // the user's number where an identity belongs
	}
	b := []byte(vfSelf)
	m := vfU8("mask")
	vfAssume(vfAnd(m != 0, m < 0x80))
	b[[]int{0, 20, 35}[vfChoose("byte", 3)]] ^= m
	return string(b)
}

// The state another correspondent could touch.
type vfWorld struct {
	app   *vfApp
	s     *store
	asked int // contacts asked for
}

var vfNewKey = bytes.Repeat([]byte{7}, 32)

func vfNewWorld() *vfWorld {
	w := &vfWorld{}
	w.app, w.s = vfReceiver(true, func(r *vftransport.VfReq) vftransport.VfAnswer { return vftransport.VfAnswer{Status: 404} })
	client.GetLocalContacts = func() ([]contacts.Contact, error) {
		w.asked++
		return nil, nil
	}
	for _, d := range []uint32{1, 2} {
		if w.s.StoreSession(vfPeer, d, axolotl.NewSessionRecord()) != nil {
			panic("session not stored")
		}
	}
	contacts.Contacts[vfPeer] = contacts.Contact{UUID: vfPeer, Name: "Peer", ProfileKey: []byte("its key")}
	return w
}

func (w *vfWorld) untouched(what string) {
	vfAssert(w.app.told() == 0, what+": nothing is handed over")
	vfAssert(w.app.requests == 0, what+": nothing is sent")
	vfAssert(w.asked == 0, what+": the contacts are not asked for")
	w.peerKept(what)
}

func (w *vfWorld) peerKept(what string) {
	vfAssert(vfAnd(w.s.ContainsSession(vfPeer, 1), w.s.ContainsSession(vfPeer, 2)), what+": the sessions of others are kept")
	vfAssert(string(contacts.Contacts[vfPeer].ProfileKey) == "its key", what+": the profile keys of others are kept")
}

// A synchronisation message of someone else is ignored.
//
//vf:fixedrand
func VC21_SyncOfOther() {
	w := vfNewWorld()
	sender := vfOther()
	number := sender
	if sender != "" {
		number = []string{sender, "", "+4917"}[vfChoose("number", 3)]
	}
	if sender == "+4917" {
		number = ""
	}
	b, err := proto.Marshal(&signalservice.Content{SyncMessage: vfSyncMessage()})
	if err != nil {
		panic("content: " + err.Error())
	}
	handleMessage(number, sender, 77, b)
	w.untouched("sync message of someone else")
	vfAssert(len(contacts.Contacts) == 1, "no contact is made up")
	vfReach("ignored")
}

// That of an own device is not.
//
//vf:fixedrand
func VC21_SyncOfOwn() {
	w := vfNewWorld()
	sm := vfSyncMessage()
	vfHandle(vfSelf, 77, &signalservice.Content{SyncMessage: sm})
	switch {
	case sm.Sent != nil && sm.Sent.Message.GetFlags() == 0:
		vfAssert(len(w.app.sent) == 1, "a message sent by another own device is handed over")
		vfAssert(w.app.sent[0].SourceUUID() == vfPeer, "with its recipient")
		w.peerKept("a plain sent message")
	case sm.Read != nil:
		vfAssert(len(w.app.syncRead) == 1, "a read mark of another own device is handed over")
	case sm.Request.GetType() == signalservice.SyncMessage_Request_CONTACTS:
		vfAssert(w.asked > 0, "a request for contacts of another own device is acted on")
	}
	vfAssert(len(w.app.msgs) == 0, "what was sent is not handed over as received")
	vfReach("handled")
}

// A data message only touches what is its sender's.
//
//vf:fixedrand
func VC21_DataOfOther() {
	w := vfNewWorld()
	sender := []string{vfPeer[:35], vfPeer + "1", "0", vfSelf, "+" + vfPeer[:35], "aaaaaaaa-dcc3-4d11-975f-74d61598733f"}[vfChoose("sender", 6)]
	if w.s.StoreSession(sender, 1, axolotl.NewSessionRecord()) != nil {
		panic("session not stored")
	}
	f := vfU32("flags")
	vfAssume(f < 128)
	ts := uint64(5)
	err := vfHandle(sender, 77, &signalservice.Content{DataMessage: &signalservice.DataMessage{Body: vfStr("hi"), Timestamp: &ts, Flags: &f, ProfileKey: vfNewKey}})
	vfAssert(err == nil, "the message is accepted")
	w.peerKept("message of someone else")
	vfAssert(w.s.ContainsSession(sender, 1) == (f != 1), "a session ends exactly when its peer ends it")
	if len(w.app.msgs) == 1 {
		vfAssert(w.app.msgs[0].SourceUUID() == sender, "the message is its sender's")
		vfAssert(w.app.msgs[0].ChatID() == sender, "the message is in its sender's chat")
	}
	vfAssert(len(w.app.msgs) == 1, "the message is handed over")
	vfAssert(len(w.app.sent) == 0, "a received message is not handed over as sent")
	c, known := contacts.Contacts[sender]
	vfAssert(known == (f == 4), "a profile key is taken exactly when it is announced")
	if known {
		vfAssert(string(c.ProfileKey) == string(vfNewKey), "the profile key is the sender's")
	}
	vfReach("handled")
}

// The same for a message as it comes from the server: the sender is the one
// whose session decrypts it, whatever the content claims.
//
//vf:fixedrand
func VC21_EndToEnd() {
	w := vfNewWorld()
	mallory := "aaaaaaaa-dcc3-4d11-975f-74d61598733f"
	own := vfChoose("own", 3) == 1
	if own {
		mallory = vfSelf
	}
	id := axolotl.GenerateIdentityKeyPair()
	if own {
		id = identityKey
	}
	d := vfNewDevice(filepath.Join(vfTempDir(), "mallory"), 1, 99, id)
	spk := axolotl.NewECKeyPair()
	if w.s.StoreSignedPreKey(7, axolotl.NewSignedPreKeyRecord(7, 1, spk, make([]byte, 64))) != nil {
		panic("prekey not stored")
	}
	w.s.SetLocalRegistrationID(5)
	b := vfSignedBundle(identityKey, 7, spk)
	if err := axolotl.NewSessionBuilder(d.st, d.st, d.st, d.st, vfSelf, 1).BuildSenderSession(b); err != nil {
		panic("session: " + err.Error())
	}
	c := &signalservice.Content{SyncMessage: vfSyncMessage()}
	if vfChoose("data", 3) == 1 {
		f := uint32(vfInt("flags", 0, 5))
		ts := uint64(5)
		c = &signalservice.Content{DataMessage: &signalservice.DataMessage{Body: vfStr("hi"), Timestamp: &ts, Flags: &f, ProfileKey: vfNewKey}}
	}
	plain, err := proto.Marshal(c)
	if err != nil {
		panic(err.Error())
	}
	ct, _, err := axolotl.NewSessionCipher(d.st, d.st, d.st, d.st, vfSelf, 1).SessionEncryptMessage(padMessage(plain))
	if err != nil {
		panic("not encrypted: " + err.Error())
	}
	t := signalservice.Envelope_PREKEY_BUNDLE
	dev, ts := uint32(1), uint64(77)
	env := &signalservice.Envelope{Type: &t, SourceUuid: &mallory, SourceDevice: &dev, ServerTimestamp: &ts, Content: ct}
	err = handleReceivedMessage(env)
	if c.DataMessage != nil {
		vfAssert(err == nil, "the message is accepted")
		vfAssert(len(w.app.msgs) == 1, "the message is handed over")
		vfAssert(w.app.msgs[0].SourceUUID() == mallory, "the message is its sender's")
		vfAssert(w.app.msgs[0].Message() == "hi", "the text is handed over")
		w.peerKept("message of someone else")
	} else if !own {
		w.untouched("sync message of someone else")
	}
	vfAssert(w.app.server == 0, "no receipt is made up")
	vfReach("handled")
}
