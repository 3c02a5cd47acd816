package contacts

import (
	"os"
	"path/filepath"

	signalservice "github.com/signal-golang/textsecure/protobuf"
)

// C36: contact records are updated without losing or mixing data.

const (
	vfA     = "9d0652a3-dcc3-4d11-975f-74d61598733f"
	vfB     = "11111111-2222-4333-8444-555555555555"
	vfC     = "22222222-2222-4333-8444-555555555555"
	vfNoOne = "00000000-0000-0000-0000-000000000000"
)

func vfText(name string, n int) string {
	b := vfBytes(name, n)
	for _, c := range b {
		vfAssume(vfAnd(c >= 'a', c <= 'z'))
	}
	return string(b)
}

// vfContact is a contact with every field set, or only some.
func vfContact(tag, uuid, tel string, kind int) Contact {
	c := Contact{UUID: uuid, Tel: tel, Name: vfText(tag+"name", 3)}
	if kind == 0 {
		return c
	}
	c.ProfileKey = vfBytes(tag+"key", 32)
	c.Username = vfText(tag+"user", 2)
	c.Blocked = vfBool(tag + "blocked")
	c.ExpireTimer = vfU32(tag + "timer")
	c.Registered = vfBool(tag + "registered")
	if kind == 1 {
		return c
	}
	c.ProfileKeyCredential = vfBytes(tag+"cred", 5)
	c.IdentityKey = vfBytes(tag+"id", 4)
	c.AvatarImg = vfBytes(tag+"img", 3)
	c.Avatar = vfBytes(tag+"av", 2)
	c.HasAvatar = vfBool(tag + "hasav")
	c.Color = vfText(tag+"color", 2)
	c.InboxPosition = vfU32(tag + "inbox")
	c.Archived = vfBool(tag + "archived")
	c.Certificate = vfBytes(tag+"cert", 2)
	c.About = vfText(tag+"about", 2)
	c.AboutEmoji = vfText(tag+"emoji", 2)
	return c
}

// vfSame compares everything but the profile key.
func vfSame(a, b Contact) bool {
	return vfAnd(vfEq([]byte(a.UUID), []byte(b.UUID)), vfEq([]byte(a.Tel), []byte(b.Tel)), vfEq([]byte(a.Name), []byte(b.Name)),
		vfEq([]byte(a.Username), []byte(b.Username)), a.Blocked == b.Blocked, a.ExpireTimer == b.ExpireTimer, a.Registered == b.Registered,
		vfEq(a.ProfileKeyCredential, b.ProfileKeyCredential), vfEq(a.IdentityKey, b.IdentityKey), vfEq(a.AvatarImg, b.AvatarImg),
		vfEq(a.Avatar, b.Avatar), a.HasAvatar == b.HasAvatar, vfEq([]byte(a.Color), []byte(b.Color)), a.InboxPosition == b.InboxPosition,
		a.Archived == b.Archived, vfEq(a.Certificate, b.Certificate), vfEq([]byte(a.About), []byte(b.About)), vfEq([]byte(a.AboutEmoji), []byte(b.AboutEmoji)))
}

func vfStart(cs ...Contact) string {
	f := filepath.Join(vfTempDir(), "contacts.yml")
	Contacts = map[string]Contact{}
	if len(cs) > 0 {
		vfAssert(WriteContacts(f, cs) == nil, "contacts can be saved")
	}
	got, err := ReadContacts(f)
	vfAssert(err == nil, "saved contacts can be read")
	vfAssert(len(got) == len(cs), "all saved contacts are read")
	return f
}

// vfReload starts the client again.
func vfReload(f string) {
	Contacts = map[string]Contact{}
	_, err := ReadContacts(f)
	vfAssert(err == nil, "the saved contacts can be read again")
}

// A contact's profile key changes, or a contact is new: nothing else changes,
// now and after a restart.
func VC36_ProfileKey() {
	a, b := vfContact("a", vfA, "+491", vfChoose("a", 3)), vfContact("b", "", "+492", vfChoose("b", 3))
	f := vfStart(a, b)
	who := []string{vfA, vfC}[vfChoose("who", 2)]
	key := vfBytes("new", 32)
	vfAssert(UpdateProfileKey(who, key) == nil, "a profile key can be stored")
	for _, again := range []bool{false, true} {
		if again {
			vfReload(f)
		}
		ga, gb, gc := GetContact(vfA), GetContact("+492"), GetContact(vfC)
		vfAssert(vfSame(a, ga), "the other fields of the contact keep their values")
		vfAssert(vfSame(b, gb), "other contacts keep their values")
		vfAssert(vfEq(gb.ProfileKey, b.ProfileKey), "other contacts keep their profile keys")
		if who == vfA {
			vfAssert(len(Contacts) == 2, "no contact appears or disappears")
			vfAssert(vfEq(ga.ProfileKey, key), "the profile key is the new one")
		} else {
			vfAssert(len(Contacts) == 3, "exactly one contact is new")
			vfAssert(vfEq(ga.ProfileKey, a.ProfileKey), "other contacts keep their profile keys")
			vfAssert(vfEq(gc.ProfileKey, key), "the profile key of a new contact is stored")
			vfAssert(gc.UUID == vfC, "a new contact is found under its identifier")
		}
	}
	vfReach("updated")
}

// A message without a profile key, or with one that is none, does not take the
// known one away.
func VC36_NoProfileKey() {
	a := vfContact("a", vfA, "+491", 1)
	f := vfStart(a)
	var key []byte
	if n := vfChoose("len", 4); n > 0 {
		key = vfBytes("new", []int{0, 0, 16, 31}[n])
	}
	UpdateProfileKey(vfA, key)
	vfAssert(vfEq(GetContact(vfA).ProfileKey, a.ProfileKey), "the known profile key is kept")
	vfReload(f)
	vfAssert(vfEq(GetContact(vfA).ProfileKey, a.ProfileKey), "the known profile key is kept")
	vfReach("kept")
}

// Contacts are found under their UUID, or under their number if they have none.
func VC36_Identifiers() {
	none := []string{"", vfNoOne, "0"}
	c1 := vfContact("a", none[vfChoose("uuid1", 3)], "+491", 1)
	c2 := vfContact("b", none[vfChoose("uuid2", 3)], "+492", 0)
	c3 := vfContact("c", vfA, []string{"", "+493"}[vfChoose("tel3", 2)], 1)
	f := vfStart(c1, c2, c3)
	for i := 0; i < 2; i++ {
		vfAssert(len(Contacts) == 3, "no contact is lost when the contacts are loaded")
		vfAssert(vfSame(GetContact("+491"), c1), "a contact without UUID is found under its number")
		vfAssert(vfSame(GetContact("+492"), c2), "a contact without UUID is found under its number")
		vfAssert(vfSame(GetContact(vfA), c3), "a contact with UUID is found under it")
		vfAssert(WriteContactsToPath() == nil, "contacts can be saved")
		vfReload(f)
	}
	vfReach("found")
}

// The application replaces the contact file; what it removed stays removed.
func VC36_Replaced() {
	a, b := vfContact("a", vfA, "+491", 1), vfContact("b", vfB, "+492", 1)
	f := vfStart(a, b)
	vfAssert(WriteContacts(f, []Contact{b}) == nil, "contacts can be saved")
	cs, err := ReadContacts(f)
	vfAssert(err == nil, "saved contacts can be read")
	vfAssert(len(cs) == 1, "exactly the saved contacts are read")
	vfAssert(len(Contacts) == 1, "exactly the saved contacts are known")
	vfAssert(vfSame(GetContact(vfB), b), "the saved contact is as it was saved")
	vfReach("replaced")
}

// A contact file that cannot be read is not overwritten, and what is known
// stays known.
func VC36_Unreadable() {
	a := vfContact("a", vfA, "+491", 1)
	f := vfStart(a)
	loaded := vfChoose("loaded", 2) == 1
	bad := []string{"contacts: [", "contacts: 5", "[1, 2]", "contacts:\n- uuid: [1]\n"}[vfChoose("bad", 4)]
	if os.WriteFile(f, []byte(bad), 0600) != nil {
		panic("not written")
	}
	if !loaded {
		Contacts = map[string]Contact{}
		filePath = ""
	}
	_, err := ReadContacts(f)
	vfAssert(err != nil, "a file that holds no contacts is reported")
	if loaded {
		vfAssert(len(Contacts) == 1, "what is known stays known")
		vfReach("known")
		return
	}
	UpdateProfileKey(vfB, make([]byte, 32))
	got, err := os.ReadFile(f)
	vfAssert(err == nil, "the file is still there")
	vfAssert(string(got) == bad, "a contact file that could not be read is not overwritten")
	vfReach("kept")
}

// Contacts of another file are not mixed in.
func VC36_OtherFile() {
	a, b := vfContact("a", vfA, "+491", 1), vfContact("b", vfB, "+492", 1)
	f := vfStart(a)
	g := filepath.Join(vfTempDir(), "contacts.yml")
	if vfChoose("exists", 2) == 1 {
		vfAssert(WriteContacts(g, []Contact{b}) == nil, "contacts can be saved")
	}
	_, err := ReadContacts(g)
	vfAssert(err == nil, "contacts can be read")
	vfAssert(UpdateProfileKey(vfC, make([]byte, 32)) == nil, "a profile key can be stored")
	cs, err := ReadContacts(g)
	vfAssert(err == nil, "contacts can be read")
	for _, c := range cs {
		vfAssert(c.UUID != vfA, "contacts of another file are not mixed in")
	}
	cs, err = ReadContacts(f)
	vfAssert(err == nil, "contacts can be read")
	vfAssert(len(cs) == 1, "the other file is as it was")
	vfAssert(vfSame(cs[0], a), "the other file is as it was")
	vfReach("apart")
}

// The verification state of a contact comes through saving and loading.
func VC36_Verified() {
	c := vfContact("a", vfA, "+491", 2)
	uuid := vfA
	c.Verified = &signalservice.Verified{DestinationUuid: &uuid, IdentityKey: []byte{1, 2}}
	f := vfStart(c)
	for i := 0; i < 2; i++ {
		d := GetContact(vfA)
		vfAssert(vfSame(c, d), "the contact comes back")
		vfAssert(d.Verified != nil, "the verification state comes back")
		vfAssert(d.Verified.GetDestinationUuid() == vfA, "the verification state comes back")
		vfAssert(string(d.Verified.GetIdentityKey()) == "\x01\x02", "the verification state comes back")
		vfAssert(WriteContactsToPath() == nil, "contacts can be saved")
		vfReload(f)
	}
	vfReach("verified")
}

// Any number of contacts, with and without UUID, come through changes and
// restarts.
//
//vf:fixedrand
func VC36_Many() {
	n := []int{4, 7, 30}[vfChoose("contacts", 3)]
	without := vfChoose("without", 3) // which of them have no UUID
	var cs []Contact
	key := func(i int) string { return string([]byte{'0' + byte(i/10), '0' + byte(i%10)}) }
	for i := 0; i < n; i++ {
		c := Contact{UUID: vfA[:34] + key(i), Tel: "+49" + key(i), Name: "n" + key(i), ProfileKey: make([]byte, 32)}
		if without == 1 && i%3 == 1 || without == 2 {
			c.UUID = ""
		} else if i%5 == 4 {
			c.Tel = ""
		}
		c.ProfileKey[0] = byte(i)
		cs = append(cs, c)
	}
	f := vfStart(cs...)
	who := vfChoose("who", 4) // of the first ones, or somebody else
	id := vfC
	if who < 3 {
		id = cs[who].UUID
		if id == "" {
			id = cs[who].Tel
		}
	}
	k := vfBytes("key", 32)
	vfAssert(UpdateProfileKey(id, k) == nil, "a profile key can be stored")
	for i := 0; i < 3; i++ {
		if who < 3 {
			vfAssert(len(Contacts) == n, "no contact appears or disappears")
		} else {
			vfAssert(len(Contacts) == n+1, "one contact is new")
		}
		ok := vfEq(GetContact(id).ProfileKey, k)
		for j, c := range cs {
			at := c.UUID
			if at == "" {
				at = c.Tel
			}
			g := GetContact(at)
			ok = ok && g.UUID == c.UUID && g.Tel == c.Tel && g.Name == c.Name
			if j != who {
				ok = vfAnd(ok, vfEq(g.ProfileKey, c.ProfileKey))
			}
		}
		vfAssert(ok, "everything else of the contacts is kept")
		if i == 1 {
			vfAssert(WriteContactsToPath() == nil, "contacts can be saved")
		}
		vfReload(f)
	}
	vfReach("kept")
}

// A contact of whom little is known is kept like any other.
func VC36_Sparse() {
	uuid, tel := vfB, ""
	switch vfChoose("known by", 3) {
	case 1:
		uuid, tel = "", "+495"
	case 2:
		tel = "+495"
	}
	full := vfContact("f", uuid, tel, 2)
	c := Contact{UUID: uuid, Tel: tel}
	switch vfChoose("field", 19) {
	case 1:
		c.Name = full.Name
	case 2:
		c.ProfileKey = full.ProfileKey
	case 3:
		c.Username = full.Username
	case 4:
		c.Blocked = full.Blocked
	case 5:
		c.ExpireTimer = full.ExpireTimer
	case 6:
		c.Registered = full.Registered
	case 7:
		c.ProfileKeyCredential = full.ProfileKeyCredential
	case 8:
		c.IdentityKey = full.IdentityKey
	case 9:
		c.AvatarImg = full.AvatarImg
	case 10:
		c.Avatar = full.Avatar
	case 11:
		c.HasAvatar = full.HasAvatar
	case 12:
		c.Color = full.Color
	case 13:
		c.InboxPosition = full.InboxPosition
	case 14:
		c.Archived = full.Archived
	case 15:
		c.Certificate = full.Certificate
	case 16:
		c.About = full.About
	case 17:
		c.AboutEmoji = full.AboutEmoji
	case 18: // everything but a name
		c = full
		c.Name = ""
	}
	at := uuid
	if at == "" {
		at = tel
	}
	a, z := vfContact("a", vfA, "+491", 1), Contact{Tel: "+499"}
	list := []Contact{a, c, z}
	if vfChoose("first", 2) == 1 {
		list = []Contact{c, z, a}
	}
	f := vfStart(list...)
	vfAssert(vfSame(Contacts[at], c) && vfEq(Contacts[at].ProfileKey, c.ProfileKey), "a contact of whom little is known is read as it was written")
	switch vfChoose("then", 3) {
	case 0:
		vfAssert(WriteContactsToPath() == nil, "contacts can be saved")
	case 1:
		vfAssert(UpdateProfileKey(vfA, vfBytes("new", 32)) == nil, "a profile key can be stored")
	case 2:
		vfAssert(UpdateProfileKey(vfC, vfBytes("new", 32)) == nil, "a profile key can be stored")
		delete(Contacts, vfC)
		vfAssert(WriteContactsToPath() == nil, "contacts can be saved")
	}
	vfReload(f)
	vfAssert(len(Contacts) == 3, "none appears or disappears")
	vfAssert(vfSame(Contacts[at], c) && vfEq(Contacts[at].ProfileKey, c.ProfileKey), "and kept")
	vfAssert(vfSame(Contacts["+499"], z) && vfSame(Contacts[vfA], a), "and so are the others")
	vfReach("kept")
}
