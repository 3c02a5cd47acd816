package textsecure

//vf:use receive
//vf:use groupsv2/reset

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crayfish"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	vftransport "github.com/signal-golang/textsecure/transport"
	"gopkg.in/yaml.v2"
)

// C20: incoming messages with missing or odd fields never crash the client.

func vfOptU32(name string) *uint32 {
	if vfChoose(name+" present", 2) == 0 {
		return nil
	}
	v := vfU32(name)
	vfAssume(v < 1<<14)
	return &v
}

func vfOptU64(name string) *uint64 {
	if vfChoose(name+" present", 2) == 0 {
		return nil
	}
	v := vfU64(name)
	vfAssume(vfAnd(v > 1<<7, v < 1<<14))
	return &v
}

// An empty string takes the place of an absent one in the thorough tier only.
func vfOptStr(name string) *string {
	switch vfChoose(name+" present", 2+vfTier()) {
	case 0:
		return nil
	case 1:
		return vfStr(vfPeer)
	}
	return vfStr("")
}

func vfOptBytes(name string) []byte {
	switch vfChoose(name+" length", 2+vfTier()) {
	case 0:
		return nil
	case 1:
		return []byte("xyz")
	}
	return []byte{}
}

// Envelopes.
//
//vf:fixedrand
func VC20_Envelope() {
	app, _ := vfReceiver(vfChoose("handlers", 2) == 1, nil)
	// Who sent it matters to receipts and to session messages, the key to
	// those of unknown senders.
	var env *signalservice.Envelope
	shape := vfChoose("shape", 4)
	if shape > 0 {
		env = &signalservice.Envelope{SourceUuid: vfStr(vfPeer)}
		if vfChoose("type present", 2) > 0 {
			t := signalservice.Envelope_Type(vfInt("type", -1, 20))
			env.Type = &t
		}
	}
	registration.Registration.SignalingKey = make([]byte, 52)
	switch shape {
	case 1: // sender
		env.SourceUuid = vfOptStr("source")
		env.SourceDevice = vfOptU32("device")
		env.Content = [][]byte{nil, {}, {0x33, 1, 2}}[vfChoose("content", 3)]
	case 2: // key
		switch vfChoose("signaling key", 3) {
		case 0:
			registration.Registration.SignalingKey = nil
		case 1:
			registration.Registration.SignalingKey = vfBytes("signaling key", 1)
		case 2:
			registration.Registration.SignalingKey[0] = 1
		}
		if vfChoose("crayfish", 2) == 1 {
			crayfish.Instance = &crayfish.CrayfishInstance{}
		}
		env.DestinationUuid = vfOptStr("destination")
		env.Content = []byte{1}
	case 3: // content
		if n := vfChoose("content length", 4); n > 0 {
			env.Content = vfBytes("content", []int{0, 1, 4 + vfTier()}[n-1])
		}
	}
	err := handleReceivedMessage(env)
	if env == nil || env.Type == nil {
		vfAssert(err != nil, "an envelope without a type is refused")
	} else if err == nil {
		vfAssert(vfOr(*env.Type == signalservice.Envelope_RECEIPT, len(env.Content) > 0), "an envelope without a message is refused")
	}
	vfAssert(len(app.msgs)+len(app.sent) == 0, "nothing that was not decrypted is handed over")
	vfReach("handled")
}

// Envelopes as bytes.
//
//vf:fixedrand
func VC20_Bytes() {
	vfReceiver(true, nil)
	env, err := createEnvelope(vfBytes("envelope", vfChoose("length", 5+2*vfTier())))
	if err == nil {
		handleReceivedMessage(env)
	}
	vfReach("handled")
}

// Data messages.
//
//vf:fixedrand
func VC20_Data() {
	handlers := vfChoose("handlers", 2) > 0
	app, _ := vfReceiver(handlers, nil)
	dm := &signalservice.DataMessage{
		Body:       vfOptStr("body"),
		Timestamp:  vfOptU64("timestamp"),
		ProfileKey: vfOptBytes("profile key"),
	}
	if vfChoose("flags present", 2) > 0 {
		f := uint32(vfInt("flags", 0, 9))
		dm.Flags = &f
	}
	atts := vfChoose("attachments", 2+vfTier())
	for i := 0; i < atts; i++ {
		dm.Attachments = append(dm.Attachments, &signalservice.AttachmentPointer{Key: vfOptBytes("key")})
	}
	switch vfChoose("parts", 5) {
	case 1:
		dm.Quote = &signalservice.DataMessage_Quote{}
	case 2:
		dm.Sticker = &signalservice.DataMessage_Sticker{}
	case 3:
		dm.Reaction = &signalservice.DataMessage_Reaction{}
	case 4:
		dm.Contact = []*signalservice.DataMessage_Contact{{}, {}}
	}
	err := vfHandle(vfPeer, 77, &signalservice.Content{DataMessage: dm})
	if err != nil {
		vfAssert(len(app.msgs) == 0, "a refused message is not handed over")
		vfReach("refused")
		return
	}
	vfAssert(atts == 0, "an attachment that cannot be fetched is reported")
	if handlers {
		vfAssert(len(app.msgs) == 1, "an accepted message is handed over once")
		m := app.msgs[0]
		vfAssert(m.SourceUUID() == vfPeer, "the message is its sender's")
		vfAssert(m.Message() == dm.GetBody(), "the text is handed over")
		vfAssert(m.Timestamp() == dm.GetTimestamp(), "the time is handed over")
		vfAssert(m.ExpireTimer() == 0, "no expiry is invented")
		vfAssert((m.Quote() != nil) == (dm.Quote != nil), "the quote is handed over")
		vfAssert((m.Sticker() != nil) == (dm.Sticker != nil), "the sticker is handed over")
		vfAssert((m.Reaction() != nil) == (dm.Reaction != nil), "the reaction is handed over")
		vfAssert(len(m.Contact()) == len(dm.Contact), "the contacts are handed over")
	}
	vfReach("accepted")
}

// Receipts, typing, calls, and messages that are none of these.
//
//vf:fixedrand
func VC20_Others() {
	handlers := vfChoose("handlers", 2) > 0
	app, _ := vfReceiver(handlers, nil)
	c := &signalservice.Content{}
	want := 0
	switch vfChoose("kind", 5) {
	case 0:
		rm := &signalservice.ReceiptMessage{}
		if vfChoose("type present", 2) == 1 {
			t := signalservice.ReceiptMessage_Type(vfInt("type", -1, 4))
			rm.Type = &t
		}
		for i := vfChoose("timestamps", 3); i > 0; i-- {
			rm.Timestamp = append(rm.Timestamp, uint64(i))
		}
		c.ReceiptMessage = rm
	case 1:
		c.TypingMessage = &signalservice.TypingMessage{Timestamp: vfOptU64("timestamp"), GroupId: vfOptBytes("group")}
		if vfChoose("action present", 2) == 1 {
			t := signalservice.TypingMessage_Action(vfInt("action", -1, 3))
			c.TypingMessage.Action = &t
		}
		want = 1
	case 2:
		cm := &signalservice.CallMessage{DestinationDeviceId: vfOptU32("device")}
		m := vfChoose("call parts", 128)
		if m&1 != 0 {
			cm.Offer = &signalservice.CallMessage_Offer{}
		}
		if m&2 != 0 {
			cm.Answer = &signalservice.CallMessage_Answer{}
		}
		if m&4 != 0 {
			cm.IceUpdate = []*signalservice.CallMessage_IceUpdate{{}}
		}
		if m&8 != 0 {
			cm.LegacyHangup = &signalservice.CallMessage_Hangup{}
		}
		if m&16 != 0 {
			cm.Busy = &signalservice.CallMessage_Busy{}
		}
		if m&32 != 0 {
			cm.Hangup = &signalservice.CallMessage_Hangup{}
		}
		if m&64 != 0 {
			cm.Opaque = &signalservice.CallMessage_Opaque{}
		}
		c.CallMessage = cm
		want = 1
	case 3:
		c.NullMessage = &signalservice.NullMessage{Padding: vfOptBytes("padding")}
	case 4:
		switch vfChoose("other", 4) {
		case 1:
			c.SenderKeyDistributionMessage = vfOptBytes("distribution")
		case 2:
			c.DecryptionErrorMessage = vfOptBytes("error")
		case 3:
			c.StoryMessage = &signalservice.StoryMessage{}
		}
	}
	err := vfHandle(vfPeer, 77, c)
	if want > 0 {
		vfAssert(err == nil, "the message is handled")
		if handlers {
			vfAssert(app.told() == 1, "the message is handed over once")
		}
	}
	for _, m := range append(append(append([]*Message{}, app.msgs...), app.typing...), app.receipts...) {
		vfAssert(m.SourceUUID() == vfPeer, "the message is its sender's")
	}
	vfReach("handled")
}

// Content as bytes.
//
//vf:fixedrand
func VC20_Content() {
	vfReceiver(true, nil)
	handleMessage(vfPeer, vfPeer, 1, vfBytes("content", vfChoose("length", 5+2*vfTier())))
	vfReach("handled")
}

// Synchronisation from the user's other devices.
//
//vf:fixedrand
func VC20_Sync() {
	handlers := vfChoose("handlers", 2) > 0
	app, _ := vfReceiver(handlers, func(r *vftransport.VfReq) vftransport.VfAnswer {
		return vftransport.VfAnswer{Status: 404}
	})
	kind := vfChoose("kind", 19)
	if kind == 3 && vfChoose("contacts", 2) == 1 {
		client.GetLocalContacts = func() ([]contacts.Contact, error) { return []contacts.Contact{{Tel: "x"}}, nil }
	}
	sm := &signalservice.SyncMessage{}
	reads := 0
	switch kind {
	case 0:
		sm.Sent = &signalservice.SyncMessage_Sent{
			DestinationE164: vfOptStr("number"),
			DestinationUuid: vfOptStr("uuid"),
			Timestamp:       vfOptU64("sent"),
		}
		if vfChoose("message present", 2) > 0 {
			dm := &signalservice.DataMessage{Timestamp: vfOptU64("timestamp"), Body: vfOptStr("body"), ProfileKey: vfOptBytes("profile key")}
			if vfChoose("flags present", 2) > 0 {
				f := uint32(vfInt("flags", 0, 9))
				dm.Flags = &f
			}
			if vfChoose("attachment", 2) == 1 {
				dm.Attachments = []*signalservice.AttachmentPointer{{}}
			}
			sm.Sent.Message = dm
		}
	case 1:
		sm.Contacts = &signalservice.SyncMessage_Contacts{}
	case 2:
		sm.Groups = &signalservice.SyncMessage_Groups{}
	case 3:
		sm.Request = &signalservice.SyncMessage_Request{}
		if vfChoose("type present", 2) > 0 {
			t := signalservice.SyncMessage_Request_Type(vfInt("type", -1, 9))
			sm.Request.Type = &t
		}
	case 4:
		reads = 1 + vfChoose("reads", 2)
		for i := 0; i < reads; i++ {
			sm.Read = append(sm.Read, &signalservice.SyncMessage_Read{SenderUuid: vfOptStr("sender"), Timestamp: vfOptU64("timestamp")})
		}
	case 5:
		sm.Blocked = &signalservice.SyncMessage_Blocked{}
	case 6:
		sm.Verified = &signalservice.Verified{DestinationUuid: vfOptStr("uuid"), IdentityKey: vfOptBytes("key"), NullMessage: vfOptBytes("null")}
	case 7:
		sm.Configuration = &signalservice.SyncMessage_Configuration{}
	case 8:
		sm.Padding = vfOptBytes("padding")
	case 9:
		sm.StickerPackOperation = []*signalservice.SyncMessage_StickerPackOperation{{}}
	case 10:
		sm.ViewOnceOpen = &signalservice.SyncMessage_ViewOnceOpen{}
	case 11:
		sm.FetchLatest = &signalservice.SyncMessage_FetchLatest{}
	case 12:
		sm.Keys = &signalservice.SyncMessage_Keys{}
	case 13:
		sm.MessageRequestResponse = &signalservice.SyncMessage_MessageRequestResponse{}
	case 14:
		sm.OutgoingPayment = &signalservice.SyncMessage_OutgoingPayment{}
	case 15:
		sm.Viewed = []*signalservice.SyncMessage_Viewed{{}}
	case 16:
		sm.PniIdentity = &signalservice.SyncMessage_PniIdentity{}
	case 17:
		sm.PniChangeNumber = &signalservice.SyncMessage_PniChangeNumber{}
	}
	if _, err := proto.Marshal(sm); err != nil {
		panic("sync message: " + err.Error())
	}
	err := vfHandle(vfSelf, 77, &signalservice.Content{SyncMessage: sm})
	if err != nil {
		vfAssert(app.told() == 0, "a refused message is not handed over")
	} else if handlers {
		if sm.Sent != nil {
			vfAssert(len(app.sent) == 1, "a sent message is handed over")
			vfAssert(app.sent[0].Message() == sm.Sent.GetMessage().GetBody(), "the text is handed over")
			vfAssert(app.sent[0].Timestamp() == sm.Sent.GetMessage().GetTimestamp(), "the time is handed over")
		}
		vfAssert(len(app.syncRead) == reads, "each read mark is handed over")
	}
	vfReach("handled")
}

// Messages in groups: any group context, known groups and new ones, and any
// answers of the server about them.
//
//vf:fixedrand
func VC20_Group() {
	groupsv2.VfReset()
	kind := vfChoose("group server", 6)
	day := vfNow() / 86400
	app, _ := vfReceiver(true, func(r *vftransport.VfReq) vftransport.VfAnswer {
		body := ""
		switch kind {
		case 0:
			return vftransport.VfAnswer{Status: 404}
		case 1:
			body = "null"
		case 2:
			body = `{"credentials":[{}`
		case 3:
			body = fmt.Sprintf(`{"credentials":[{"redemptionTime":%d}]}`, day)
		case 4:
			body = fmt.Sprintf(`{"credentials":[{"credential":"AAAA","redemptionTime":%d}]}`, day)
		case 5:
			body = fmt.Sprintf(`{"credentials":[{"credential":"%s","redemptionTime":%d}]}`, base64.StdEncoding.EncodeToString(make([]byte, 361)), day)
		}
		return vftransport.VfAnswer{Status: 200, Body: []byte(body)}
	})
	dir := config.ConfigFile.StorageDir
	if err := groupsv2.SetupGroups(dir); err != nil {
		panic(err.Error())
	}
	gc := &signalservice.GroupContextV2{}
	key := 32
	if vfChoose("key length", 2) == 1 {
		key = []int{0, 1, 16, 31, 33}[vfChoose("odd length", 5)]
	}
	if key > 0 {
		gc.MasterKey = bytes.Repeat([]byte{7}, key)
	}
	if r := vfChoose("revision", 3); r > 0 {
		n := uint32(r)
		gc.Revision = &n
	}
	if vfChoose("known", 2) == 1 && key == 32 {
		id := strings.Repeat("07", 32)
		g := &groupsv2.GroupV2{MasterKey: gc.MasterKey, Hexid: id}
		if vfChoose("title", 2) == 1 {
			g.GroupContext.Title = []byte{1, 2}
		}
		if vfChoose("decrypted", 2) == 1 {
			g.DecryptedGroup = &signalservice.DecryptedGroup{Title: "x", Revision: 1}
		}
		b, err := yaml.Marshal(g)
		if err != nil {
			panic(err.Error())
		}
		if err := os.WriteFile(filepath.Join(dir, "groupsv2", id), b, 0600); err != nil {
			panic(err.Error())
		}
	}
	switch vfChoose("change", 4) {
	case 1:
		gc.GroupChange = vfBytes("change", 1+vfChoose("change length", 2+vfTier()))
	case 2:
		gc.GroupChange = []byte{10, 2, 8, 1, 18, 1, 1}
	case 3:
		ch := &signalservice.GroupChange{}
		switch vfChoose("actions", 3) {
		case 1:
			ch.Actions = []byte{0xff}
		case 2:
			ch.Actions, _ = proto.Marshal(&signalservice.GroupChange_Actions{
				Revision:          2,
				AddMembers:        []*signalservice.GroupChange_Actions_AddMemberAction{{}},
				DeleteMembers:     []*signalservice.GroupChange_Actions_DeleteMemberAction{{}},
				AddPendingMembers: []*signalservice.GroupChange_Actions_AddPendingMemberAction{{}},
				ModifyMemberRoles: []*signalservice.GroupChange_Actions_ModifyMemberRoleAction{{}},
			})
		}
		switch vfChoose("signature", 3) {
		case 1:
			ch.ServerSignature = make([]byte, 64)
		case 2:
			ch.ServerSignature = []byte{1}
		}
		b, err := proto.Marshal(ch)
		if err != nil {
			panic(err.Error())
		}
		gc.GroupChange = b
	}
	if vfChoose("sent by another device", 2) == 1 {
		err := vfHandle(vfSelf, 77, &signalservice.Content{SyncMessage: &signalservice.SyncMessage{
			Sent: &signalservice.SyncMessage_Sent{DestinationUuid: vfStr(vfPeer), Message: &signalservice.DataMessage{Body: vfStr("x"), GroupV2: gc}},
		}})
		if err == nil {
			vfAssert(len(app.sent) == 1, "an accepted message is handed over once")
		}
		vfReach("sent")
		return
	}
	err := vfHandle(vfPeer, 77, &signalservice.Content{DataMessage: &signalservice.DataMessage{Body: vfStr("x"), GroupV2: gc}})
	if err != nil {
		vfAssert(app.told() == 0, "a refused message is not handed over")
		vfReach("refused")
		return
	}
	vfAssert(key == 32, "a group has a whole key")
	vfAssert(len(app.msgs) == 1, "an accepted message is handed over once")
	vfAssert(app.msgs[0].GroupV2() != nil, "with its group")
	vfReach("accepted")
}
