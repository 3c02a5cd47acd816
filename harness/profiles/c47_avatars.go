package profiles

//vf:use start

import (
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crypto"
)

// C47: cached avatars belong to their accounts, are complete, and nothing else is touched.

func vfPicture(id string) ([]byte, bool) {
	r, err := GetLocalAvatar(id)
	if err != nil {
		return nil, false
	}
	defer r.Close()
	b, err := io.ReadAll(r)
	return b, err == nil
}

// The files below the directory with what they contain, temporary ones apart.
func vfAll(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && !strings.HasPrefix(fi.Name(), ".tmp") {
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err.Error())
			}
			out[p] = "=" + string(b)
		}
		return nil
	})
	return out
}

// Whatever the sequence of saves, each account has the picture saved for it last.
func VC47_History() {
	vfStart()
	ids := []string{vfUser, vfOther, strings.ToUpper(vfUser), vfUser[:35], vfUser + "_1", " " + vfUser, "+4917", "4917", "urn:uuid:" + vfUser}
	x, y := ids[vfChoose("x", len(ids))], ids[vfChoose("y", len(ids))]
	vfAssume(x != y)
	want := map[string][]byte{}
	for i, n := range []int{3, 2 + 3*vfChoose("second longer", 2), 1 + vfChoose("third", 6)} {
		id := [][]string{{x, y, x}, {x, x, y}, {y, x, x}}[vfChoose("order"+string(rune('0'+i)), 1+2*vfTier())][i]
		b := vfBytes("picture"+string(rune('0'+i)), n)
		vfAssert(SaveAvatar(id, b) == nil, "a picture is saved")
		want[id] = b
	}
	if vfChoose("restart", 2) == 1 {
		avatarsPath = ""
	}
	for _, id := range []string{x, y} {
		got, ok := vfPicture(id)
		w, saved := want[id]
		vfAssert(ok == saved, "there is a picture for those one was saved for")
		vfAssert(vfEq(got, w), "the picture is the one that was saved for the account last")
		p, err := GetLocalAvatarPath(id)
		vfAssert(err == nil, "its file is named")
		b, err := os.ReadFile(p)
		vfAssert(vfAnd((err == nil) == saved, vfEq(b, w)), "and holds it")
	}
	vfReach("kept")
}

// The client stops while it saves a picture: afterwards there is the complete
// earlier one or the complete new one, and those of others are as before.
func VC47_Interrupted() {
	vfStart()
	old, now, other := vfBytes("old", 3), vfBytes("new", []int{1, 3, 5}[vfChoose("length", 3)]), vfBytes("other", 2)
	vfAssert(SaveAvatar(vfOther, other) == nil, "a picture is saved")
	had := vfChoose("had one", 2) == 1
	if had {
		vfAssert(SaveAvatar(vfUser, old) == nil, "a picture is saved")
	}
	done := false
	crashed := vfCrash(func() { done = SaveAvatar(vfUser, now) == nil })
	avatarsPath = ""
	got, ok := vfPicture(vfUser)
	if !crashed {
		vfAssert(vfAnd(done, ok, vfEq(got, now)), "a saved picture is found")
	}
	vfAssert(ok || !had, "a picture is not lost")
	if ok {
		vfAssert(vfOr(vfEq(got, now), vfAnd(had, vfEq(got, old))), "the picture is complete")
	}
	got, ok = vfPicture(vfOther)
	vfAssert(vfAnd(ok, vfEq(got, other)), "the pictures of others are as before")
	vfReach("restarted")
}

// Whatever id is given, or comes with a profile, only the file of that
// picture is written or read.
//
//vf:fixedrand
func VC47_Inside() {
	s := vfStart()
	dir := config.ConfigFile.StorageDir
	for _, d := range []string{"identity", "sessions", "avatars"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0700); err != nil {
			panic(err.Error())
		}
		os.WriteFile(filepath.Join(dir, d, "own"), []byte(d), 0600)
	}
	os.WriteFile(filepath.Join(dir, "own"), []byte("top"), 0600)
	vfAssert(SaveAvatar(vfUser, []byte("mine")) == nil, "a picture is saved")
	ids := []string{"../own", "../identity/own", "../sessions/own", "x/../../identity/own", "./own2", ".", "..", "/", "../avatars/" + vfUser, "./" + vfUser, vfUser + "/", "//" + vfUser,
		"..\\own", "a\x00b", "%2e%2e/own", "../identity", filepath.Join(dir, "own"), vfUser + "/../own", "x/.."}
	id := ids[vfChoose("id", len(ids))]
	before := vfAll(dir)
	switch vfChoose("how", 3) {
	case 0:
		SaveAvatar(id, []byte("bad"))
	case 1: // a profile with that id
		key := make([]byte, 32)
		contacts.Contacts[id] = contacts.Contact{UUID: id, ProfileKey: key}
		nonce := make([]byte, 12)
		ct, err := crypto.AesgcmEncrypt(key, nonce, []byte("bad"))
		if err != nil {
			panic("set-up")
		}
		s.avatar = append(nonce, ct...)
		s.profile["uuid"], s.profile["avatar"] = id, "a"
		if vfChoose("by number", 2) == 1 {
			GetProfileE164("+4917")
		} else {
			GetProfileUUID(id)
		}
		contacts.Contacts = map[string]contacts.Contact{}
	case 2:
		b, ok := vfPicture(id)
		vfAssert(!ok || len(b) == 0, "no other file is read as a picture")
	}
	after := vfAll(dir)
	for k, v := range before {
		if strings.HasSuffix(k, ".yml") {
			continue
		}
		w, ok := after[k]
		vfAssert(ok && w == v, "no other file changes")
	}
	for k := range after {
		if _, ok := before[k]; !ok && !strings.HasSuffix(k, ".yml") {
			vfAssert(filepath.Dir(k) == filepath.Join(dir, "avatars"), "no file appears elsewhere")
		}
	}
	vfReach("inside")
}
