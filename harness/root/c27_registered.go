package textsecure

//vf:use receive
//vf:use discovery

import (
	"bytes"
	"errors"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// C27: contact discovery from the address book to the registered contacts.

const (
	vfU1 = "\x11\x22\x33\x44\x55\x66\x47\x88\x99\xaa\xbb\xcc\xdd\xee\xff\x01"
	vfU2 = "\x01\x02\x03\x04\x05\x06\x47\x08\x89\x0a\x0b\x0c\x0d\x0e\x0f\x10"
	vfT1 = "11223344-5566-4788-99aa-bbccddeeff01"
	vfT2 = "01020304-0506-4708-890a-0b0c0d0e0f10"
)

// Exactly the numbers of the address book are asked for, once each, and each
// contact gets the account of its own number.
//
//vf:fixedrand
func VC27_Registered() {
	d := vfNewDirectory()
	vfReceiver(true, d.answer)
	reg := vfChoose("registered", 8)
	nums := []uint64{4917, 4918, 49190}
	tels := []string{"+4917", "+4918", "49190"}
	ids := []string{vfU1, vfU2, "\x77" + vfU1[1:]}
	texts := []string{vfT1, vfT2, "77" + vfT1[2:]}
	var book []contacts.Contact
	for i, t := range tels {
		book = append(book, contacts.Contact{Tel: t, Name: "N" + t})
		if reg>>uint(i)&1 == 1 {
			d.known[nums[i]] = ids[i]
		}
	}
	// others that cannot be asked for, and one twice
	odd := []string{"", "word", "(0151) 5", "-4919", "+", "+4917", "4 9", "99999999999999999999"}[vfChoose("odd", 8)]
	at := vfChoose("at", 3)
	rest := append([]contacts.Contact{{Tel: odd, Name: "odd"}}, book[at:]...)
	all := append(append([]contacts.Contact{}, book[:at]...), rest...)
	vfBook(config.ConfigFile.StorageDir, all)
	got, err := GetRegisteredContacts()
	vfAssert(err == nil, "contacts are found whatever else is in the address book")
	vfAssert(d.queries == 1, "one query is made")
	vfAssert(len(d.asked) == 3, "exactly the numbers of the address book are asked for")
	vfAssert(len(got) == len(all), "the whole address book is returned")
	for i, n := range nums {
		vfAssert(d.asked[i] == n || odd == "+4917", "the numbers are asked for in order")
		on := reg>>uint(i)&1 == 1
		first := true
		for _, c := range got {
			if c.Tel != tels[i] || !first {
				continue
			}
			first = false
			vfAssert(c.Registered == on, "exactly the registered contacts are told to be")
			if on {
				vfAssert(c.UUID == texts[i], "a contact gets the account of its own number")
			}
		}
		vfAssert(!first, "no contact is lost")
		key := tels[i]
		if on {
			key = texts[i]
		}
		c := contacts.GetContact(key)
		vfAssert(c.Tel == tels[i], "a contact is found under its account or its number")
		vfAssert(c.Registered == on, "as registered or not")
	}
	vfReach("found")
}

// Answers of the directory that are none give an error, and no contact changes.
//
//vf:fixedrand
func VC27_BadAnswers() {
	d := vfNewDirectory()
	vfReceiver(true, d.answer)
	d.known[4917] = vfU1
	book := []contacts.Contact{{Tel: "+4917", Name: "A"}, {Tel: "+4918", Name: "B"}, {UUID: vfT2, Name: "C"}}
	vfBook(config.ConfigFile.StorageDir, book)
	at := []string{"https://main/v1/directory/auth", "https://directory/v1/attestation/", "https://directory/v1/discovery/"}
	kind := vfChoose("kind", 12)
	step := 2
	if kind > 4 {
		step = vfChoose("step", 3)
	}
	switch kind {
	case 0:
		d.respond = func(b []byte) []byte { return nil }
	case 1:
		d.respond = func(b []byte) []byte { return b[:16] }
	case 2:
		d.respond = func(b []byte) []byte { return b[:31] }
	case 3:
		d.respond = func(b []byte) []byte { return append(b, make([]byte, 16)...) }
	case 4:
		d.respond = func(b []byte) []byte { return b[:15] }
	default:
		d.override = func(r *vftransport.VfReq) *vftransport.VfAnswer {
			if len(r.URL) < len(at[step]) || r.URL[:len(at[step])] != at[step] {
				return nil
			}
			switch kind {
			case 5:
				return &vftransport.VfAnswer{Err: errors.New("lost")}
			case 6:
				st := int(vfU16("status"))
				vfAssume(vfAnd(st >= 100, st < 600, vfOr(st < 200, st >= 300)))
				return &vftransport.VfAnswer{Status: st, Body: []byte("{}")}
			case 11:
				if step == 0 {
					return &vftransport.VfAnswer{Status: 403, Body: []byte(`{"username":"u","password":"p"}`)}
				}
			}
			return &vftransport.VfAnswer{Status: 200, Body: []byte([]string{"", "null", "{}", "5", "["}[kind-7])}
		}
	}
	got, err := GetRegisteredContacts()
	if step == 0 && (kind == 8 || kind == 9) {
		return // no credentials: the directory decides
	}
	vfAssert(err != nil, "a bad answer of the directory gives an error")
	vfAssert(len(got) == 0, "and no contacts")
	vfAssert(len(contacts.Contacts) == 3, "the known contacts stay")
	vfAssert(contacts.GetContact("+4917").Name == "A", "the known contacts stay as they are")
	vfAssert(contacts.GetContact(vfT2).Name == "C", "the known contacts stay as they are")
	vfReach("refused")
}

// What is known about an account stays known when its number is found again,
// a number is held by one contact only, and one that is no longer registered
// is told to be so.
//
//vf:fixedrand
func VC27_Known() {
	d := vfNewDirectory()
	vfReceiver(true, d.answer)
	on := vfChoose("registered", 2) == 1
	if on {
		d.known[4917] = vfU1
	}
	before := vfBool("registered before")
	a := contacts.Contact{Tel: "+4917", Name: "A", Registered: before, About: "me", ExpireTimer: vfU32("timer"), Blocked: vfBool("blocked")}
	own := vfChoose("key of the entry", 2) == 1
	if own {
		a.ProfileKey = bytes.Repeat([]byte{5}, 32)
	}
	b := contacts.Contact{Tel: "+4918", Name: "B", Registered: true, UUID: vfT2}
	client.GetLocalContacts = func() ([]contacts.Contact, error) { return []contacts.Contact{a, b}, nil }
	_, err := contacts.ReadContacts(config.ConfigFile.StorageDir + "/contacts.yml")
	vfAssert(err == nil, "the address book can be read")
	contacts.Contacts = map[string]contacts.Contact{}
	known := vfChoose("known as", 4)
	secret := []byte(nil)
	switch known {
	case 1: // under the number
		contacts.Contacts["+4917"] = contacts.Contact{Tel: "+4917", Name: "old", Registered: true}
	case 2: // under another account
		contacts.Contacts[vfT2] = contacts.Contact{UUID: vfT2, Tel: "+4917", Name: "old", Registered: true}
	case 3: // from messages of the account
		secret = bytes.Repeat([]byte{6}, 32)
		contacts.Contacts[vfT1] = contacts.Contact{UUID: vfT1, Name: vfT1, ProfileKey: secret}
	}
	if known != 0 && vfChoose("credential", 2) == 1 {
		for k, c := range contacts.Contacts {
			c.ProfileKeyCredential = []byte("credential")
			contacts.Contacts[k] = c
		}
	}
	const third = "99999999-2222-4333-8444-555555555555"
	contacts.Contacts[third] = contacts.Contact{UUID: third, Name: "third", ProfileKey: bytes.Repeat([]byte{8}, 32)}
	_, err = GetRegisteredContacts()
	vfAssert(err == nil, "contacts are found")
	for i := 0; i < 2; i++ {
		key, n := "+4917", 0
		if on {
			key = vfT1
		}
		for k, c := range contacts.Contacts {
			if c.Tel == "+4917" {
				n++
				vfAssert(k == key, "a number is held by the contact of its account")
			}
		}
		vfAssert(n == 1, "a number is held by one contact")
		c := contacts.Contacts[key]
		vfAssert(c.Registered == on, "a contact is registered if the directory says so now")
		vfAssert(c.Name == "A" && c.About == "me", "the contact is the one of the address book")
		vfAssert(vfAnd(c.ExpireTimer == a.ExpireTimer, c.Blocked == a.Blocked), "the contact is the one of the address book")
		if own {
			vfAssert(string(c.ProfileKey) == string(a.ProfileKey), "the profile key of the address book is kept")
		} else if on {
			vfAssert(string(c.ProfileKey) == string(secret), "a profile key the account told is kept")
		}
		vfAssert(contacts.Contacts[third].Name == "third" && len(contacts.Contacts[third].ProfileKey) == 32, "other contacts are kept")
		contacts.Contacts = map[string]contacts.Contact{}
		contacts.ReadContacts(config.ConfigFile.StorageDir + "/contacts.yml")
	}
	vfReach("known")
}
