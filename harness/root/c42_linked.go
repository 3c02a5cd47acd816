package textsecure

//vf:use receive
//vf:use world
//vf:use discovery

import (
	"encoding/binary"
	"io"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// C42: linked devices that ask get all contacts and groups, and only they do.

// vfLinked is a client with linked devices, a contact directory and a server
// for objects.
func vfLinked() (*vfWorld, *vfDirectory, *vfApp) {
	w, d := vfNewWorld(), vfNewDirectory()
	app, s := vfReceiver(true, func(r *vftransport.VfReq) vftransport.VfAnswer {
		if strings.Contains(r.URL, "/directory") || strings.HasPrefix(r.URL, "https://directory/") {
			return d.answer(r)
		}
		return w.answer(r)
	})
	s.SetLocalRegistrationID(77)
	w.other = func(r *vftransport.VfReq) vftransport.VfAnswer {
		switch r.Method {
		case "POST":
			return vftransport.VfAnswer{Status: 201, Header: map[string]string{"Location": "https://cdn2.signal.org/upload/k?id=1"}}
		case "PUT":
			w.files["obj"] = r.Body
			return vftransport.VfAnswer{Status: 200}
		case "GET":
			if b, ok := w.files["obj"]; ok {
				return vftransport.VfAnswer{Status: 200, Body: b}
			}
		}
		return vftransport.VfAnswer{Status: 404}
	}
	return w, d, app
}

// vfRecords fetches an object as a linked device does, and takes it apart.
func vfRecords(p *signalservice.AttachmentPointer) [][]byte {
	a, err := handleSingleAttachment(p)
	vfAssert(err == nil, "the device can fetch what it asked for")
	b, err := io.ReadAll(a.R)
	vfAssert(err == nil, "the device can fetch what it asked for")
	var l [][]byte
	for len(b) > 0 {
		n, k := binary.Uvarint(b)
		ok := k > 0 && n <= uint64(len(b)-k)
		vfAssert(ok, "the device can tell the entries apart")
		l = append(l, b[k:k+int(n)])
		b = b[k+int(n):]
	}
	return l
}

func vfLetters(name string, n int) string {
	b := vfBytes(name, n)
	for _, c := range b {
		vfAssume(vfAnd(c >= 'a', c <= 'z'))
	}
	return string(b)
}

func vfAsk(t signalservice.SyncMessage_Request_Type) error {
	return vfHandle(vfSelf, 7, &signalservice.Content{SyncMessage: &signalservice.SyncMessage{Request: &signalservice.SyncMessage_Request{Type: &t}}})
}

// A linked device that asks for contacts gets every registered contact with
// its own number, name, block and timer.
//
//vf:fixedrand
func VC42_Contacts() {
	w, d, _ := vfLinked()
	ids := []string{"\x11\x22\x33\x44\x55\x66\x47\x88\x99\xaa\xbb\xcc\xdd\xee\xff\x01", "\x01\x02\x03\x04\x05\x06\x47\x08\x89\x0a\x0b\x0c\x0d\x0e\x0f\x10"}
	uuids := []string{"11223344-5566-4788-99aa-bbccddeeff01", "01020304-0506-4708-890a-0b0c0d0e0f10"}
	nums := []uint64{4917, 4918}
	reg := vfChoose("registered", 4)
	var book []contacts.Contact
	for i, t := range []string{"+4917", "+4918"} {
		c := contacts.Contact{Tel: t, Name: []string{vfLetters("name", 2), strings.Repeat("long ", 40)}[i], Color: "blue", Blocked: vfBool("blocked" + t), ExpireTimer: uint32(vfInt("timer"+t, 0, 127))}
		if i == 0 {
			state := signalservice.Verified_VERIFIED
			c.Verified = &signalservice.Verified{DestinationUuid: vfStr(uuids[0]), IdentityKey: []byte{5, 1}, State: &state}
		}
		book = append(book, c)
		if reg>>uint(i)&1 == 1 {
			d.known[nums[i]] = ids[i]
		}
	}
	client.GetLocalContacts = func() ([]contacts.Contact, error) { return append([]contacts.Contact{}, book...), nil }
	vfAssert(vfAsk(signalservice.SyncMessage_Request_CONTACTS) == nil, "contacts can be sent to linked devices")
	vfAssert(len(w.got) == 1 && len(w.arrived(vfSelf)) == 1, "one answer is sent, to the user's own devices")
	l := vfRecords(w.got[0].content.GetSyncMessage().GetContacts().GetBlob())
	seen := 0
	for _, b := range l {
		cd := &signalservice.ContactDetails{}
		vfAssert(proto.Unmarshal(b, cd) == nil, "the device can read each contact")
		for i, u := range uuids {
			if cd.GetUuid() != u {
				continue
			}
			vfAssert(reg>>uint(i)&1 == 1, "only registered contacts are sent")
			seen |= 1 << uint(i)
			c := book[i]
			vfAssert(cd.GetNumber() == c.Tel, "a contact is sent with its own number")
			vfAssert(vfAnd(vfEq([]byte(cd.GetName()), []byte(c.Name)), cd.GetBlocked() == c.Blocked, cd.GetExpireTimer() == c.ExpireTimer), "a contact is sent with its own name, block and timer")
			vfAssert((cd.Verified != nil) == (c.Verified != nil), "a contact is sent as verified or not")
			if i == 0 {
				vfAssert(cd.Verified.GetState() == signalservice.Verified_VERIFIED && string(cd.Verified.GetIdentityKey()) == "\x05\x01", "a contact is sent as it was verified")
			}
		}
	}
	vfAssert(seen == reg, "every registered contact is sent")
	vfAssert(len(l) == reg&1+reg>>1, "each contact is sent once")
	vfReach("sent")
}

// Entries of every size can be told apart: names of lengths around those where
// the encoding of the length changes.
//
//vf:fixedrand
func VC42_Sizes() {
	w, d, _ := vfLinked()
	at := []int{0, 60, 190, 16320}[vfChoose("about", 4)]
	name := strings.Repeat("n", at+vfChoose("more", 64))
	if vfChoose("groups", 2) == 1 {
		groups = map[string]*Group{}
		for i, n := range []string{name, "short"} {
			id := []byte{byte(i), 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
			groups[idToHex(id)] = &Group{ID: id, Hexid: idToHex(id), Name: n, Members: []string{"+4917"}}
		}
		vfAssert(vfAsk(signalservice.SyncMessage_Request_GROUPS) == nil && len(w.got) == 1, "groups can be sent to linked devices")
		l := vfRecords(w.got[0].content.GetSyncMessage().GetGroups().GetBlob())
		vfAssert(len(l) == 2, "every group is sent once")
		for _, b := range l {
			gd := &signalservice.GroupDetails{}
			vfAssert(proto.Unmarshal(b, gd) == nil, "the device can read each group")
			vfAssert(gd.GetName() == name || gd.GetName() == "short", "a group is sent with its own name")
		}
		vfReach("sizes")
		return
	}
	d.known[4917] = "\x11\x22\x33\x44\x55\x66\x47\x88\x99\xaa\xbb\xcc\xdd\xee\xff\x01"
	d.known[4918] = "\x01\x02\x03\x04\x05\x06\x47\x08\x89\x0a\x0b\x0c\x0d\x0e\x0f\x10"
	book := []contacts.Contact{{Tel: "+4917", Name: name}, {Tel: "+4918", Name: "short"}}
	client.GetLocalContacts = func() ([]contacts.Contact, error) { return append([]contacts.Contact{}, book...), nil }
	vfAssert(vfAsk(signalservice.SyncMessage_Request_CONTACTS) == nil && len(w.got) == 1, "contacts can be sent to linked devices")
	l := vfRecords(w.got[0].content.GetSyncMessage().GetContacts().GetBlob())
	vfAssert(len(l) == 2, "each contact is sent once")
	for _, b := range l {
		cd := &signalservice.ContactDetails{}
		vfAssert(proto.Unmarshal(b, cd) == nil, "the device can read each contact")
		vfAssert(cd.GetNumber() == "+4917" && cd.GetName() == name || cd.GetNumber() == "+4918" && cd.GetName() == "short", "a contact is sent with its own name")
	}
	vfReach("sizes")
}

// A linked device that asks for groups gets every group with its own name and
// members.
//
//vf:fixedrand
func VC42_Groups() {
	w, _, _ := vfLinked()
	groups = map[string]*Group{}
	n := vfChoose("n", 3)
	members := [][]string{{"+4917"}, {"+491", "+4917", "+493"}}
	var all []*Group
	for i := 0; i < n; i++ {
		id := []byte{byte(i), 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
		g := &Group{ID: id, Hexid: idToHex(id), Name: vfLetters([]string{"one", "two"}[i], 2+i), Members: members[i]}
		groups[g.Hexid] = g
		all = append(all, g)
	}
	vfAssert(vfAsk(signalservice.SyncMessage_Request_GROUPS) == nil, "groups can be sent to linked devices")
	vfAssert(len(w.got) == 1 && len(w.arrived(vfSelf)) == 1, "one answer is sent, to the user's own devices")
	l := vfRecords(w.got[0].content.GetSyncMessage().GetGroups().GetBlob())
	vfAssert(len(l) == n, "every group is sent once")
	for i, g := range all {
		found := 0
		for _, b := range l {
			gd := &signalservice.GroupDetails{}
			vfAssert(proto.Unmarshal(b, gd) == nil, "the device can read each group")
			if idToHex(gd.GetId()) != g.Hexid {
				continue
			}
			found++
			vfAssert(vfEq([]byte(gd.GetName()), []byte(g.Name)), "a group is sent with its own name")
			ok := len(gd.GetMembersE164()) == len(members[i])
			for j := range members[i] {
				ok = ok && gd.GetMembersE164()[j] == members[i][j]
			}
			vfAssert(ok, "a group is sent with its own members")
		}
		vfAssert(found == 1, "every group is sent once")
	}
	vfReach("sent")
}

// Nobody else gets an answer, and what cannot be sent is reported.
//
//vf:fixedrand
func VC42_Others() {
	w, d, _ := vfLinked()
	groups = map[string]*Group{}
	d.known[4917] = "\x11\x22\x33\x44\x55\x66\x47\x88\x99\xaa\xbb\xcc\xdd\xee\xff\x01"
	vfBook(config.ConfigFile.StorageDir, []contacts.Contact{{Tel: "+4917", Name: "A"}})
	t := []signalservice.SyncMessage_Request_Type{signalservice.SyncMessage_Request_CONTACTS, signalservice.SyncMessage_Request_GROUPS}[vfChoose("type", 2)]
	switch vfChoose("case", 4) {
	case 0: // asked by somebody else
		vfHandle(vfPeer, 7, &signalservice.Content{SyncMessage: &signalservice.SyncMessage{Request: &signalservice.SyncMessage_Request{Type: &t}}})
		vfAssert(w.puts == 0 && len(w.files) == 0 && d.queries == 0, "nobody else is answered")
	case 1: // the object cannot be uploaded
		w.other = nil
		vfAssert(vfAsk(t) != nil, "what cannot be uploaded is reported")
		vfAssert(w.puts == 0, "nothing is announced that was not uploaded")
	case 2: // the devices cannot be reached
		w.fail = vfSelf
		vfAssert(vfAsk(t) != nil, "devices that were not reached are reported")
	case 3: // the own request for contacts
		vfAssert(SyncContacts() == nil, "the user's other devices can be asked")
		vfAssert(len(w.got) == 1 && len(w.arrived(vfSelf)) == 1, "only they are asked")
		vfAssert(w.got[0].content.GetSyncMessage().GetRequest().GetType() == signalservice.SyncMessage_Request_CONTACTS, "they are asked for contacts")
	}
	vfReach("answered")
}

// Requests for other things get no contacts and no groups.
//
//vf:fixedrand
func VC42_OtherRequests() {
	w, d, _ := vfLinked()
	groups = map[string]*Group{"00": {ID: []byte{0}, Hexid: "00", Name: "g", Members: []string{"+4917"}}}
	d.known[4917] = "\x11\x22\x33\x44\x55\x66\x47\x88\x99\xaa\xbb\xcc\xdd\xee\xff\x01"
	vfBook(config.ConfigFile.StorageDir, []contacts.Contact{{Tel: "+4917", Name: "A"}})
	t := vfInt("type", -1, 8)
	vfAssume(vfAnd(t != int(signalservice.SyncMessage_Request_CONTACTS), t != int(signalservice.SyncMessage_Request_GROUPS)))
	vfAsk(signalservice.SyncMessage_Request_Type(int32(t)))
	for _, c := range w.arrived(vfSelf) {
		vfAssert(c.content.GetSyncMessage().GetContacts() == nil, "contacts are sent only when they are asked for")
		vfAssert(c.content.GetSyncMessage().GetGroups() == nil, "groups are sent only when they are asked for")
	}
	vfReach("other")
}
