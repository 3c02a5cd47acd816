package contacts

import "path/filepath"

// C40: an interrupted save keeps what was saved before.

func vfWord(name string, n int) string {
	b := vfBytes(name, n)
	for _, c := range b {
		vfAssume(vfAnd(c >= 'a', c <= 'z'))
	}
	return string(b)
}

// vfPerson is a contact with its own identifier and any name and key.
func vfPerson(i int) Contact {
	t := string(rune('a' + i))
	return Contact{UUID: []string{"9d0652a3-dcc3-4d11-975f-74d61598733f", "11111111-2222-4333-8444-555555555555", ""}[i], Tel: []string{"", "+492", "+493"}[i],
		Name: vfWord("name"+t, 3+i), ProfileKey: vfBytes("key"+t, 32), ExpireTimer: vfU32("timer" + t), Blocked: vfBool("blocked" + t)}
}

func vfLike(a, b Contact) bool {
	return vfAnd(vfEq([]byte(a.Name), []byte(b.Name)), vfEq(a.ProfileKey, b.ProfileKey), a.ExpireTimer == b.ExpireTimer, a.Blocked == b.Blocked)
}

// vfHolds tells whether the list holds exactly these contacts.
func vfHolds(got, want []Contact) bool {
	if len(got) != len(want) {
		return false
	}
	ok := true
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g.UUID == w.UUID && g.Tel == w.Tel {
				n++
				ok = vfAnd(ok, vfLike(g, w))
			}
		}
		if n != 1 {
			return false
		}
	}
	return ok
}

// The client stops while it saves contacts: after a restart the contacts are
// the complete earlier or the complete new ones.
func VC40_Contacts() {
	f := filepath.Join(vfTempDir(), "contacts.yml")
	p0, p1, p2 := vfPerson(0), vfPerson(1), vfPerson(2)
	old := []Contact{p0, p1}[:1+vfChoose("old", 2)]
	vfAssert(WriteContacts(f, old) == nil, "contacts can be saved")
	_, err := ReadContacts(f)
	vfAssert(err == nil, "saved contacts can be read")
	var now []Contact
	var save func() error
	how := vfChoose("how", 4)
	key := vfBytes("newkey", 32)
	switch how {
	case 0: // the application replaces the list
		now = []Contact{p1, p2}
		save = func() error { return WriteContacts(f, now) }
	case 1: // a message brings another profile key
		c := p0
		c.ProfileKey = key
		now = append([]Contact{c}, old[1:]...)
		save = func() error { return UpdateProfileKey(c.UUID, key) }
	case 2: // a contact becomes known
		now = append(append([]Contact{}, old...), p2)
		Contacts[p2.Tel] = p2
		save = WriteContactsToPath
	case 3: // the last contact is deleted
		save = func() error { return WriteContacts(f, nil) }
	}
	crashed := vfCrash(func() {
		if save() != nil {
			panic("saving fails")
		}
	})
	Contacts = map[string]Contact{}
	got, err := ReadContacts(f)
	vfAssert(err == nil, "the contacts can be read after an interrupted save")
	if crashed {
		vfAssert(vfOr(vfHolds(got, old), vfHolds(got, now)), "the contacts are the complete old or the complete new ones")
		vfReach("interrupted")
	} else {
		vfAssert(vfHolds(got, now), "a completed save is read")
		vfReach("completed")
	}
	// Saving works again.
	next := []Contact{p2}
	vfAssert(WriteContacts(f, next) == nil, "contacts can be saved after an interrupted save")
	got, err = ReadContacts(f)
	vfAssert(err == nil, "and read")
	vfAssert(vfHolds(got, next), "and read")
}
