package profiles

//vf:use start

import (
	"bytes"
	"path/filepath"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
)

// C36: fetching a profile changes only what the profile tells.

// The name, texts and picture may be new; everything else of the contact and
// everything of other contacts stays.
//
//vf:fixedrand
func VC36_Fetch() {
	s := vfStart()
	key := []byte(nil)
	if vfChoose("key", 2) == 1 {
		key = vfBytes("key", 32)
	}
	set := vfChoose("set", 8)
	if set != 0 && key != nil {
		key = bytes.Repeat([]byte{5}, 32)
	}
	a := contacts.Contact{UUID: vfUser, Tel: "+491", Name: "A", ProfileKey: key, ProfileKeyCredential: []byte("cred"), IdentityKey: []byte("ik"), Color: "red", Blocked: vfBool("blocked"), ExpireTimer: vfU32("timer"), InboxPosition: 3, Archived: vfBool("archived"), Certificate: []byte("c"), Registered: vfBool("registered"), About: "words", AboutEmoji: "x", Username: "user"}
	b := contacts.Contact{UUID: vfOther, Tel: "+492", Name: "B", ProfileKey: bytes.Repeat([]byte{7}, 32), About: "b"}
	f := filepath.Join(config.ConfigFile.StorageDir, "contacts.yml")
	if contacts.WriteContacts(f, []contacts.Contact{a, b}) != nil {
		panic("contacts not written")
	}
	contacts.ReadContacts(f)
	for i, f := range []string{"name", "about", "aboutEmoji"} {
		if key != nil && set>>uint(i)&1 == 1 {
			s.profile[f] = vfB64(vfEncrypt(key, []byte("New")))
		}
	}
	if vfChoose("e164", 2) == 1 {
		GetProfileE164("+491")
	} else {
		GetProfileUUID(vfUser)
	}
	for i := 0; i < 2; i++ {
		vfAssert(len(contacts.Contacts) == 2, "no contact appears or disappears")
		ga, gb := contacts.GetContact(vfUser), contacts.GetContact(vfOther)
		vfAssert(ga.UUID == vfUser && ga.Tel == "+491" && ga.Color == "red" && ga.InboxPosition == 3 && string(ga.IdentityKey) == "ik" && string(ga.Certificate) == "c", "the other fields of the contact are kept")
		vfAssert(vfAnd(ga.Blocked == a.Blocked, ga.ExpireTimer == a.ExpireTimer, ga.Archived == a.Archived, ga.Registered == a.Registered), "the state of the contact is kept")
		vfAssert(vfEq(ga.ProfileKey, key), "the profile key is kept")
		vfAssert(ga.Name == "A" || ga.Name == "New", "the name is the old or the fetched one")
		vfAssert(ga.About == "words" || (ga.About == "New" && set&2 != 0), "the text is the old or the fetched one")
		vfAssert(ga.AboutEmoji == "x" || (ga.AboutEmoji == "New" && set&4 != 0), "the sign is the old or the fetched one")
		vfAssert(string(ga.ProfileKeyCredential) == "cred", "the credential is kept")
		vfAssert(gb.Tel == "+492" && gb.Name == "B" && gb.About == "b" && string(gb.ProfileKey) == string(b.ProfileKey), "other contacts are kept")
		contacts.Contacts = map[string]contacts.Contact{}
		contacts.ReadContacts(f)
	}
	vfReach("kept")
}
