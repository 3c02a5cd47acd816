package textsecure

//vf:use receive
//vf:use discovery

import (
	"path/filepath"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
)

// C36: what messages and contact discovery do to the contacts.

const (
	vfMU1 = "\x11\x22\x33\x44\x55\x66\x47\x88\x99\xaa\xbb\xcc\xdd\xee\xff\x01"
	vfMU2 = "\x01\x02\x03\x04\x05\x06\x47\x08\x89\x0a\x0b\x0c\x0d\x0e\x0f\x10"
	vfMT1 = "11223344-5566-4788-99aa-bbccddeeff01"
	vfMT2 = "01020304-0506-4708-890a-0b0c0d0e0f10"
)

func vfKept(a, b contacts.Contact, key bool) bool {
	ok := a.UUID == b.UUID && a.Tel == b.Tel && a.Name == b.Name && a.Username == b.Username && a.Blocked == b.Blocked && a.ExpireTimer == b.ExpireTimer && a.Archived == b.Archived && string(a.IdentityKey) == string(b.IdentityKey) && a.About == b.About
	return ok && (!key || vfEq(a.ProfileKey, b.ProfileKey))
}

func vfSomeone(uuid, tel, name string) contacts.Contact {
	return contacts.Contact{UUID: uuid, Tel: tel, Name: name, Username: "u" + name, Blocked: name == "B", ExpireTimer: 60, Archived: true, IdentityKey: []byte("ik" + name), About: "about " + name, ProfileKey: vfBytes("key"+name, 32)}
}

// A message changes the profile key of its sender, if it carries one, and
// nothing else of anybody; a copy of a sent message changes nothing.
//
//vf:fixedrand
func VC36_Messages() {
	vfReceiver(true, nil)
	const other = "11111111-2222-4333-8444-555555555555"
	a, b := vfSomeone(vfPeer, "+491", "A"), vfSomeone(other, "+492", "B")
	f := filepath.Join(config.ConfigFile.StorageDir, "contacts.yml")
	if contacts.WriteContacts(f, []contacts.Contact{a, b}) != nil {
		panic("contacts not written")
	}
	contacts.ReadContacts(f)
	flags := uint32(vfChoose("flags", 8))
	var key []byte
	if vfChoose("key", 2) == 1 {
		key = vfBytes("new", 32)
	}
	ts := uint64(5)
	dm := &signalservice.DataMessage{Body: vfStr("hi"), Timestamp: &ts, Flags: &flags, ProfileKey: key}
	sent := vfChoose("sent", 2) == 1
	if sent {
		s := &signalservice.SyncMessage_Sent{DestinationUuid: vfStr(vfPeer), Timestamp: &ts, Message: dm}
		s.DestinationE164 = []*string{nil, vfStr(vfPeer), vfStr("+491")}[vfChoose("e164", 3)]
		vfHandle(vfSelf, 77, &signalservice.Content{SyncMessage: &signalservice.SyncMessage{Sent: s}})
	} else {
		vfHandle(vfPeer, 77, &signalservice.Content{DataMessage: dm})
	}
	for i := 0; i < 2; i++ {
		vfAssert(len(contacts.Contacts) == 2, "no contact appears or disappears")
		ga, gb := contacts.GetContact(vfPeer), contacts.GetContact(other)
		vfAssert(vfKept(a, ga, false), "the other fields of the sender are kept")
		vfAssert(vfKept(b, gb, true), "other contacts are kept")
		if !sent && flags == uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE) && key != nil {
			vfAssert(vfEq(ga.ProfileKey, key), "the new profile key of the sender is stored")
			vfReach("updated")
		} else {
			vfAssert(vfEq(ga.ProfileKey, a.ProfileKey), "the profile key is kept")
			vfReach("kept")
		}
		contacts.Contacts = map[string]contacts.Contact{}
		contacts.ReadContacts(f)
	}
}

// Asking who is registered loses nothing of the contacts known, whether they
// are asked for or not, and mixes nothing up.
//
//vf:fixedrand
func VC36_Discovery() {
	d := vfNewDirectory()
	vfReceiver(true, d.answer)
	const other = "11111111-2222-4333-8444-555555555555"
	reg := vfChoose("registered", 4)
	if reg&1 == 1 {
		d.known[4917] = vfMU1
	}
	if reg&2 == 2 {
		d.known[4918] = vfMU2
	}
	a, b, c := vfSomeone("", "+4917", "A"), vfSomeone("", "+4918", "B"), vfSomeone(other, "", "C")
	// known before as registered, as unregistered, or only by number
	switch vfChoose("before", 3) {
	case 1:
		a.UUID = vfMT1
	case 2:
		a.UUID = "00000000-0000-0000-0000-000000000000"
	}
	book := []contacts.Contact{a, b, c}
	vfBook(config.ConfigFile.StorageDir, book)
	plain := vfChoose("plain", 2) == 1
	if plain {
		// the address book of the application knows names and numbers only
		if _, err := client.GetLocalContacts(); err != nil {
			panic("contacts not read")
		}
		client.GetLocalContacts = func() ([]contacts.Contact, error) {
			return []contacts.Contact{{Tel: "+4917", Name: "A"}, {Tel: "+4918", Name: "B"}}, nil
		}
	}
	_, err := GetRegisteredContacts()
	vfAssert(err == nil, "contact discovery works")
	f := filepath.Join(config.ConfigFile.StorageDir, "contacts.yml")
	for i := 0; i < 2; i++ {
		vfAssert(vfKept(c, contacts.GetContact(other), true), "a contact without number is kept")
		ka, kb := "+4917", "+4918"
		if reg&1 == 1 {
			ka = vfMT1
		}
		if reg&2 == 2 {
			kb = vfMT2
		}
		ga, gb := contacts.GetContact(ka), contacts.GetContact(kb)
		vfAssert(ga.Name == "A", "each contact is found under its account or its number")
		vfAssert(gb.Name == "B", "each contact is found under its account or its number")
		n := 0
		for _, x := range contacts.Contacts {
			if x.Tel == "+4917" {
				n++
			}
		}
		vfAssert(n == 1, "a number belongs to one contact")
		if !plain {
			ga.UUID, gb.UUID = a.UUID, b.UUID
			vfAssert(vfKept(a, ga, true), "a contact keeps its data when it is found")
			vfAssert(vfKept(b, gb, true), "a contact keeps its data when it is found")
		} else if reg&1 == 1 && a.UUID == vfMT1 {
			vfAssert(vfEq(ga.ProfileKey, a.ProfileKey), "a contact keeps its profile key when it is found")
		}
		contacts.Contacts = map[string]contacts.Contact{}
		contacts.ReadContacts(f)
	}
	vfReach("found")
}
