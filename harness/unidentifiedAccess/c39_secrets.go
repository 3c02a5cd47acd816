package unidentifiedAccess

import "github.com/signal-golang/textsecure/contacts"

// C39: secrets come from the secure random source, whole.

// The access key sent for a contact whose profile key is unknown.
func VC39_Token() {
	vfAssert(vfFresh(func() []byte {
		b, err := GetTargetUnidentifiedAccessKey(contacts.Contact{UUID: "u"})
		if err != nil || len(b) != 16 {
			panic("no token")
		}
		return b
	}, nil), "the stand-in access key is random")
	vfReach("generated")
}
