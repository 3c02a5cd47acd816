package textsecure

//vf:use receive
//vf:use world

import (
	"bytes"
	"io"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// C41: a message reaches the application as its author wrote it.

func vfText(name string, n int) string {
	b := vfBytes(name, n)
	for _, c := range b {
		vfAssume(vfAnd(c >= ' ', c <= '~'))
	}
	return string(b)
}

func vfSameText(a, b string) bool { return vfEq([]byte(a), []byte(b)) }

// vfWritten is a message with any text and times and some of the other parts.
func vfWritten(tag string) *signalservice.DataMessage {
	ts, timer := uint64(1600000000000+vfInt("ts"+tag, 0, 1000)), uint32(vfInt("timer"+tag, 0, 127))
	dm := &signalservice.DataMessage{Timestamp: &ts, ExpireTimer: &timer}
	if vfChoose("body"+tag, 2) == 1 {
		dm.Body = vfStr(vfText("text"+tag, 3))
	}
	parts := vfChoose("parts"+tag, 6)
	switch parts {
	case 1:
		id := uint64(vfInt("quoted"+tag, 128, 300))
		dm.Quote = &signalservice.DataMessage_Quote{Id: &id, AuthorUuid: vfStr(vfPeer), Text: vfStr(vfText("qtext"+tag, 2))}
	case 2:
		id := uint32(vfInt("sticker"+tag, 0, 127))
		dm.Sticker = &signalservice.DataMessage_Sticker{PackId: vfBytes("pack"+tag, 2), PackKey: vfBytes("packkey"+tag, 2), StickerId: &id}
	case 3:
		at := uint64(vfInt("at"+tag, 128, 300))
		gone := vfBool("remove" + tag)
		dm.Reaction = &signalservice.DataMessage_Reaction{Emoji: vfStr(vfText("emoji"+tag, 2)), Remove: &gone, TargetAuthorUuid: vfStr(vfPeer), TargetSentTimestamp: &at}
	case 4:
		dm.Contact = []*signalservice.DataMessage_Contact{{Organization: vfStr(vfText("org"+tag, 2))}, {Name: &signalservice.DataMessage_Contact_Name{GivenName: vfStr(vfText("given"+tag, 2))}}}
	case 5:
		dm.ProfileKey = vfBytes("key"+tag, 32)
	}
	return dm
}

// vfArrivedAs tells whether the application was given this message.
func vfArrivedAs(m *Message, who string, dm *signalservice.DataMessage) bool {
	ok := vfAnd(m.SourceUUID() == who, vfSameText(m.Message(), dm.GetBody()), m.Timestamp() == dm.GetTimestamp(), m.ExpireTimer() == dm.GetExpireTimer(),
		m.Flags() == 0, len(m.Attachments()) == 0, m.GroupV2() == nil, m.Group() == nil, vfEq(m.profileKey, dm.GetProfileKey()))
	q, dq := m.Quote(), dm.Quote
	if (q == nil) != (dq == nil) {
		return false
	}
	if q != nil {
		ok = vfAnd(ok, q.GetId() == dq.GetId(), q.GetAuthorUuid() == dq.GetAuthorUuid(), vfSameText(q.GetText(), dq.GetText()))
	}
	s, ds := m.Sticker(), dm.Sticker
	if (s == nil) != (ds == nil) {
		return false
	}
	if s != nil {
		ok = vfAnd(ok, vfEq(s.GetPackId(), ds.GetPackId()), vfEq(s.GetPackKey(), ds.GetPackKey()), s.GetStickerId() == ds.GetStickerId())
	}
	r, dr := m.Reaction(), dm.Reaction
	if (r == nil) != (dr == nil) {
		return false
	}
	if r != nil {
		ok = vfAnd(ok, vfSameText(r.GetEmoji(), dr.GetEmoji()), r.GetRemove() == dr.GetRemove(), r.GetTargetAuthorUuid() == dr.GetTargetAuthorUuid(), r.GetTargetSentTimestamp() == dr.GetTargetSentTimestamp())
	}
	if len(m.Contact()) != len(dm.Contact) {
		return false
	}
	for i, c := range m.Contact() {
		ok = vfAnd(ok, vfSameText(c.GetOrganization(), dm.Contact[i].GetOrganization()), vfSameText(c.GetName().GetGivenName(), dm.Contact[i].GetName().GetGivenName()))
	}
	return ok
}

// Received messages are handed to the application with everything they say,
// each once, in order, and with nothing of the one before.
//
//vf:fixedrand
func VC41_Received() {
	app, _ := vfReceiver(true, nil)
	first := vfWritten("1")
	second := &signalservice.DataMessage{Body: vfStr("second"), Timestamp: first.Timestamp}
	who := []string{vfPeer, "11111111-2222-4333-8444-555555555555"}[vfChoose("who", 2)]
	vfAssert(vfHandle(vfPeer, 77, &signalservice.Content{DataMessage: first}) == nil, "a message is taken")
	vfAssert(vfHandle(who, 78, &signalservice.Content{DataMessage: second}) == nil, "a message is taken")
	vfAssert(len(app.msgs) == 2 && app.told() == 2, "the application is given each message once")
	vfAssert(vfArrivedAs(app.msgs[0], vfPeer, first), "a message arrives as it was written")
	vfAssert(vfArrivedAs(app.msgs[1], who, second), "a message has nothing of the one before")
	vfReach("received")
}

// A copy of a message sent by another device of the user is reported as such,
// with everything it says and to whom it was sent.
//
//vf:fixedrand
func VC41_Copy() {
	app, _ := vfReceiver(true, nil)
	dm := vfWritten("1")
	s := &signalservice.SyncMessage_Sent{DestinationUuid: vfStr(vfPeer), Timestamp: dm.Timestamp, Message: dm}
	vfAssert(vfHandle(vfSelf, 77, &signalservice.Content{SyncMessage: &signalservice.SyncMessage{Sent: s}}) == nil, "a copy is taken")
	vfAssert(len(app.sent) == 1 && app.told() == 1, "the application is given each copy once")
	vfAssert(vfArrivedAs(app.sent[0], vfPeer, dm), "a copy says what was sent, and to whom")
	vfReach("copied")
}

// What is written goes into the message unchanged, and is read from it.
//
//vf:fixedrand
func VC41_Written() {
	app, _ := vfReceiver(true, nil)
	config.ConfigFile.ProfileKey = vfBytes("own key", 32)
	o := &outgoingMessage{destination: vfPeer, expireTimer: uint32(vfInt("timer", 0, 300))}
	if n := vfLen("length", 0, 4); n > 0 {
		o.msg = vfText("text", n)
	}
	if vfChoose("timed", 2) == 1 {
		ts := uint64(1600000000000 + vfInt("ts", 0, 1000))
		o.timestamp = &ts
	}
	now := uint64(vfNow() * 1000)
	b, err := proto.Marshal(&signalservice.Content{DataMessage: createMessage(o)})
	vfAssert(err == nil, "a message can be encoded")
	vfAssert(handleMessage(vfPeer, vfPeer, 5, stripPadding(padMessage(b))) == nil, "a message is taken")
	vfAssert(len(app.msgs) == 1, "the application is given the message once")
	m := app.msgs[0]
	vfAssert(vfSameText(m.Message(), o.msg), "the text is the one written")
	vfAssert(m.ExpireTimer() == o.expireTimer, "the timer is the one chosen")
	vfAssert(vfEq(m.profileKey, config.ConfigFile.ProfileKey), "the sender's profile key goes with the message")
	vfAssert(m.Flags() == 0, "the message has no flags")
	if o.timestamp != nil {
		vfAssert(m.Timestamp() == *o.timestamp, "the time is the one given")
	} else {
		vfAssert(vfAnd(m.Timestamp() >= now-60000, m.Timestamp() <= now+60000), "the time is now")
	}
	vfReach("written")
}

// A message names the group it is for and all a recipient needs to fetch its
// attachment, and carries the sender's profile key whoever it is for.
//
//vf:fixedrand
func VC41_Parts() {
	vfReceiver(true, nil)
	config.ConfigFile.ProfileKey = vfBytes("own key", 32)
	o := &outgoingMessage{destination: vfPeer, msg: "text", expireTimer: vfU32("timer")}
	if vfChoose("group", 2) == 1 {
		o.groupV2 = &signalservice.GroupContextV2{MasterKey: vfBytes("master", 32), Revision: new(uint32)}
	}
	kind := vfChoose("attachment", 3)
	a := &attachmentPointerV3{}
	if kind != 0 {
		a.keys, a.digest = vfBytes("keys", 64), vfBytes("digest", 32)
		a.cdnKey, a.cdnNr, a.ct, a.size, a.voiceNote = "object", vfU32("cdn"), "a/b", vfU32("size"), kind == 2
		o.attachment = a
	}
	b, err := proto.Marshal(createMessage(o))
	vfAssert(err == nil, "a message can be encoded")
	dm := &signalservice.DataMessage{}
	vfAssert(proto.Unmarshal(b, dm) == nil, "a message can be decoded")
	vfAssert(dm.GetBody() == "text" && dm.GetExpireTimer() == o.expireTimer, "text and timer go with the message")
	vfAssert(vfEq(dm.GetProfileKey(), config.ConfigFile.ProfileKey), "the sender's profile key goes with the message")
	vfAssert((dm.GroupV2 != nil) == (o.groupV2 != nil), "a message is for a group if it was written to one")
	if o.groupV2 != nil {
		vfAssert(vfEq(dm.GroupV2.MasterKey, o.groupV2.MasterKey), "a message names its group")
	}
	if kind == 0 {
		vfAssert(len(dm.Attachments) == 0, "there is no attachment")
		return
	}
	vfAssert(len(dm.Attachments) == 1, "there is one attachment")
	p := dm.Attachments[0]
	vfAssert(p.GetCdnKey() == "object" && p.GetCdnNumber() == a.cdnNr, "the attachment is named")
	vfAssert(p.GetContentType() == "a/b", "the attachment has its type")
	vfAssert(vfAnd(vfEq(p.Key, a.keys), vfEq(p.Digest, a.digest)), "the attachment can be opened and checked")
	vfAssert(p.GetSize() == a.size, "the attachment has its size")
	vfAssert((p.GetFlags()&uint32(signalservice.AttachmentPointer_VOICE_MESSAGE) != 0) == a.voiceNote, "voice notes are told apart")
	vfReach("parts")
}

// Calls are told with their kind, who calls and when; once each.
func VC41_Calls() {
	app, _ := vfReceiver(true, nil)
	id := vfU64("id")
	cm := &signalservice.CallMessage{}
	word := ""
	switch vfChoose("kind", 6) {
	case 0:
		cm.Offer, word = &signalservice.CallMessage_Offer{Id: &id}, "offer"
	case 1:
		cm.Answer, word = &signalservice.CallMessage_Answer{Id: &id}, "answer"
	case 2:
		cm.Hangup, word = &signalservice.CallMessage_Hangup{Id: &id}, "hangup"
	case 3:
		cm.LegacyHangup, word = &signalservice.CallMessage_Hangup{Id: &id}, "hangup"
	case 4:
		cm.Busy, word = &signalservice.CallMessage_Busy{Id: &id}, "busy"
	case 5:
		cm.IceUpdate, word = []*signalservice.CallMessage_IceUpdate{{Id: &id}}, "ring"
	}
	ts := vfU64("ts")
	vfAssert(vfHandle(vfPeer, ts, &signalservice.Content{CallMessage: cm}) == nil, "a call is taken")
	vfAssert(len(app.msgs) == 1 && app.told() == 1, "the application is told of each call once")
	m := app.msgs[0]
	vfAssert(m.SourceUUID() == vfPeer, "the caller is the sender")
	vfAssert(m.Timestamp() == ts, "the time is the one of the envelope")
	for _, w := range []string{"offer", "answer", "hangup", "busy", "ring"} {
		vfAssert(strings.Contains(m.Message(), w) == (w == word), "the call is told as what it is")
	}
	vfReach("told")
}

// vfSender is a client among other users; objects can be uploaded and fetched.
func vfSender() (*vfWorld, *vfApp, *store) {
	w := vfNewWorld()
	blobs := 0
	w.other = func(r *vftransport.VfReq) vftransport.VfAnswer {
		switch r.Method {
		case "POST":
			return vftransport.VfAnswer{Status: 201, Header: map[string]string{"Location": "https://cdn2.signal.org/upload/k?id=1"}}
		case "PUT":
			blobs++
			w.files["obj"] = r.Body
			return vftransport.VfAnswer{Status: 200}
		case "GET":
			if b, ok := w.files["obj"]; ok {
				return vftransport.VfAnswer{Status: 200, Body: b}
			}
		}
		return vftransport.VfAnswer{Status: 404}
	}
	app, s := vfReceiver(true, w.answer)
	s.SetLocalRegistrationID(77)
	return w, app, s
}

// Everything that can be sent reaches the recipient once, as it was written;
// other devices of the user get a copy that says the same.
//
//vf:fixedrand
func VC41_Sent() {
	w, app, _ := vfSender()
	w.copies = vfChoose("copies", 2) == 1
	timer := []uint32{0, 3600}[vfChoose("timer", 2)]
	data := []byte("\x89PNG\r\n\x1a\n and more")
	var ts uint64
	var err error
	text, att, flags := "hello", false, uint32(0)
	kind := vfChoose("kind", 4)
	switch kind {
	case 0:
		ts, err = SendMessage(vfPeer, text, timer)
	case 1:
		ts, err = SendAttachment(vfPeer, text, bytes.NewReader(data), timer)
		att = true
	case 2:
		ts, err = SendVoiceNote(vfPeer, text, bytes.NewReader(data), timer)
		att = true
	case 3:
		ts, err = EndSession(vfPeer, text)
		timer, flags = 0, EndSessionFlag
	}
	vfAssert(err == nil, "a message can be sent")
	got := w.arrived(vfPeer)
	vfAssert(len(got) == 1, "the recipient receives the message once")
	vfAssert(got[0].ts == ts, "the message has the time that is reported")
	n := 1
	if w.copies {
		n = 2
		c := w.arrived(vfSelf)
		vfAssert(len(c) == 1, "the user's other devices receive one copy")
		s := c[0].content.GetSyncMessage().GetSent()
		vfAssert(s.GetDestinationUuid() == vfPeer, "the copy names the recipient")
		vfAssert(s.GetTimestamp() == ts && c[0].ts == ts, "the copy has the time of the message")
		a, _ := proto.Marshal(s.GetMessage())
		b, _ := proto.Marshal(got[0].content.GetDataMessage())
		vfAssert(string(a) == string(b), "the copy says what the message says")
	}
	vfAssert(len(w.got) == n, "nobody else receives anything")
	// What the recipient's application makes of it.
	vfAssert(vfHandle(vfSelf, 5, got[0].content) == nil, "the recipient takes the message")
	vfAssert(len(app.msgs) == 1, "the recipient's application is given the message once")
	m := app.msgs[0]
	vfAssert(m.Message() == text, "the text is the one written")
	vfAssert(m.ExpireTimer() == timer, "the timer is the one chosen")
	vfAssert(m.Timestamp() == ts, "the time is the one reported")
	vfAssert(m.Flags() == flags, "the end of the session is told, and only that")
	if !att {
		vfAssert(len(m.Attachments()) == 0, "there is no attachment")
	} else {
		vfAssert(len(m.Attachments()) == 1, "there is one attachment")
		p := got[0].content.GetDataMessage().Attachments[0]
		vfAssert(int(p.GetSize()) == len(data), "the message tells how long the attachment is")
		b, err := io.ReadAll(m.Attachments()[0].R)
		vfAssert(err == nil && string(b) == string(data), "the attachment is the one sent")
		if kind == 1 {
			typ, _ := MIMETypeFromReader(bytes.NewReader(data))
			vfAssert(m.Attachments()[0].MimeType == typ, "the attachment has its type")
		}
	}
	vfReach("sent")
}

// The end of a session, sent or received, deletes the sessions with this
// correspondent and no others.
//
//vf:fixedrand
func VC41_EndSession() {
	w, _, s := vfSender()
	const other = "11111111-2222-4333-8444-555555555555"
	v := make([]byte, 32)
	for _, id := range []string{vfPeer, other} {
		for _, dev := range []uint32{1, 2} {
			if id == vfPeer && dev == 1 {
				continue
			}
			vfAssert(s.StoreSession(id, dev, vfSession(v)) == nil, "a session can be stored")
		}
	}
	_, err := SendMessage(vfPeer, "hi", 0)
	vfAssert(err == nil, "a message can be sent")
	flag := uint32(signalservice.DataMessage_END_SESSION)
	ts := uint64(5)
	dm := &signalservice.DataMessage{Flags: &flag, Timestamp: &ts}
	how := vfChoose("how", 5)
	switch how {
	case 0:
		_, err = EndSession(vfPeer, "bye")
	case 1:
		err = vfHandle(vfPeer, 5, &signalservice.Content{DataMessage: dm})
	case 2, 4: // another device of the user ended it
		sent := &signalservice.SyncMessage_Sent{DestinationUuid: vfStr(vfPeer), Timestamp: &ts, Message: dm}
		if how == 4 {
			sent.DestinationE164 = vfStr("+4930123")
		}
		err = vfHandle(vfSelf, 5, &signalservice.Content{SyncMessage: &signalservice.SyncMessage{Sent: sent}})
	case 3: // the other side is not told
		w.fail = vfPeer
		_, err = EndSession(vfPeer, "bye")
		vfAssert(err != nil, "an end that could not be sent is reported")
		vfAssert(s.ContainsSession(vfPeer, 1), "the session is kept as long as the other side has not been told")
		vfReach("not told")
		return
	}
	vfAssert(err == nil, "a session can be ended")
	vfAssert(!s.ContainsSession(vfPeer, 1) && !s.ContainsSession(vfPeer, 2), "no session with the correspondent is left")
	vfAssert(s.ContainsSession(other, 1) && s.ContainsSession(other, 2), "sessions with others are kept")
	_, err = SendMessage(vfPeer, "again", 0)
	vfAssert(err == nil, "a new session begins with the next message")
	vfReach("ended")
}

// Receipts, read notices and typing are reported for exactly the messages and
// the sender they name.
//
//vf:fixedrand
func VC41_Receipts() {
	app, _ := vfReceiver(true, nil)
	n := 1 + vfChoose("n", 3)
	var ts []uint64
	for i := 0; i < n; i++ {
		ts = append(ts, uint64(1600000000000+vfInt("ts", 0, 1000)))
	}
	switch vfChoose("what", 3) {
	case 0:
		read := vfChoose("read", 2) == 1
		typ := signalservice.ReceiptMessage_DELIVERY
		if read {
			typ = signalservice.ReceiptMessage_READ
		}
		vfAssert(vfHandle(vfPeer, 7, &signalservice.Content{ReceiptMessage: &signalservice.ReceiptMessage{Type: &typ, Timestamp: ts}}) == nil, "a receipt is taken")
		vfAssert(len(app.receipts) == n && app.told() == n, "each message named by a receipt is reported once")
		for i, m := range app.receipts {
			vfAssert(m.Timestamp() == ts[i], "a receipt is reported for the message it names")
			vfAssert(m.SourceUUID() == vfPeer, "a receipt is reported as the sender's")
			vfAssert((m.Message() == "readReceiptMessage") == read, "read and delivered are told apart")
			vfAssert((m.Message() == "deliveryReceiptMessage") == !read, "read and delivered are told apart")
		}
	case 1:
		var reads []*signalservice.SyncMessage_Read
		who := []string{vfPeer, "11111111-2222-4333-8444-555555555555", vfPeer}
		for i := range ts {
			reads = append(reads, &signalservice.SyncMessage_Read{SenderUuid: vfStr(who[i]), Timestamp: &ts[i]})
		}
		var times []uint64
		old := client.SyncReadHandler
		client.SyncReadHandler = func(id string, t uint64) { times = append(times, t); old(id, t) }
		vfAssert(vfHandle(vfSelf, 7, &signalservice.Content{SyncMessage: &signalservice.SyncMessage{Read: reads}}) == nil, "a read notice is taken")
		vfAssert(len(app.syncRead) == n && app.told() == n, "each message read is reported once")
		for i := range ts {
			vfAssert(app.syncRead[i] == who[i], "a read message is reported with its author")
			vfAssert(times[i] == ts[i], "a read message is reported with its time")
		}
	case 2:
		a := signalservice.TypingMessage_STARTED
		vfAssert(vfHandle(vfPeer, 7, &signalservice.Content{TypingMessage: &signalservice.TypingMessage{Timestamp: &ts[0], Action: &a}}) == nil, "a typing notice is taken")
		vfAssert(len(app.typing) == 1 && app.told() == 1, "typing is reported once")
		vfAssert(app.typing[0].SourceUUID() == vfPeer, "typing is reported as the sender's")
	}
	vfReach("reported")
}

// An attachment that cannot be fetched keeps the message from being shown
// without it.
//
//vf:fixedrand
func VC41_LostAttachment() {
	w, app, _ := vfSender()
	_, err := SendAttachment(vfPeer, "see", bytes.NewReader([]byte("data")), 0)
	vfAssert(err == nil, "an attachment can be sent")
	delete(w.files, "obj")
	vfAssert(vfHandle(vfSelf, 5, w.arrived(vfPeer)[0].content) != nil, "a lost attachment is reported")
	vfAssert(app.told() == 0, "the message is not shown without its attachment")
	vfReach("lost")
}

// The answer of a correspondent who is known by number arrives, once.
//
//vf:fixedrand
func VC41_ByNumber() {
	w, app, _ := vfSender()
	const number = "+4930555"
	known := number
	if vfChoose("written as", 2) == 1 {
		known = number[1:]
	}
	_, err := SendMessage(known, "hello", 0)
	vfAssert(err == nil && len(w.arrived(known)) == 1, "a message to a number arrives")
	d := w.device(known)
	m, typ, err := axolotl.NewSessionCipher(d.st, d.st, d.st, d.st, vfSelfID, 1).SessionEncryptMessage(padMessage(vfContent("fine")))
	vfAssert(err == nil && typ == 1, "it can be answered")
	t, src, dev := signalservice.Envelope_CIPHERTEXT, number, uint32(1)
	env := &signalservice.Envelope{Type: &t, SourceUuid: &src, SourceDevice: &dev, Content: m}
	vfAssert(handleReceivedMessage(env) == nil, "the answer is taken")
	vfAssert(len(app.msgs) == 1 && app.msgs[0].Message() == "fine", "the answer reaches the application")
	handleReceivedMessage(env)
	vfAssert(len(app.msgs) == 1, "the answer reaches the application once")
	vfReach("answered")
}

func vfContent(text string) []byte {
	ts := uint64(5)
	b, err := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &text, Timestamp: &ts}})
	if err != nil {
		panic(err.Error())
	}
	return b
}
