package unidentifiedAccess

import (
	"path/filepath"

	"github.com/signal-golang/textsecure/contacts"
)

// C36: a reloaded contact has a profile key exactly if it had one before.

// The access key of a contact is the same before and after a restart.
func VC36_AccessKey() {
	f := filepath.Join(vfTempDir(), "contacts.yml")
	with := vfChoose("key", 2) == 1
	c := contacts.Contact{UUID: "9d0652a3-dcc3-4d11-975f-74d61598733f", Tel: "+491"}
	if with {
		c.ProfileKey = vfBytes("key", 32)
	}
	if contacts.WriteContacts(f, []contacts.Contact{c}) != nil {
		panic("contacts not written")
	}
	before, err := GetTargetUnidentifiedAccessKey(c)
	vfAssert(err == nil, "a contact has an access key")
	contacts.Contacts = map[string]contacts.Contact{}
	if _, err := contacts.ReadContacts(f); err != nil {
		panic("contacts not read")
	}
	after, err := GetTargetUnidentifiedAccessKey(contacts.GetContact(c.UUID))
	vfAssert(err == nil, "a reloaded contact has an access key")
	vfAssert(vfAnd(len(before) == 16, len(after) == 16), "access keys have 16 bytes")
	if with {
		vfAssert(vfEq(before, after), "the access key of a reloaded contact is the same")
		vfReach("known")
	} else {
		vfReach("unknown")
	}
}
