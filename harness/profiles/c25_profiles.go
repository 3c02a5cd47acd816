package profiles

//vf:use start

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"io"
	"path/filepath"
	"strings"

	zkgroup "github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crypto"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// C25: profile secrets are random and profile names round-trip.

// Every allowed name is written encrypted and read back as it was set.
//
//vf:fixedrand
func VC25_RoundTrip() {
	s := vfStart()
	n := []int{1, 2, 26, 52, 53}[vfChoose("length", 5)]
	name := vfBytes("name", n)
	for i := range name { // printable, as JSON escapes make lengths vary
		vfAssume(vfAnd(name[i] > 0x5c, name[i] < 0x7f))
	}
	key := bytes.Repeat([]byte{3}, 32)
	vfAssert(UpdateProfile(key, vfUser, string(name)) == nil, "a profile the server takes is written")
	sealed := s.name()
	vfAssert(len(sealed) == 12+NAME_PADDED_LENGTH+16, "the length of a name does not show")
	padded, ok := vfOpenName(key, sealed)
	vfAssert(ok, "recipients can read the name")
	vfAssert(vfEq(padded, append(append([]byte{}, name...), make([]byte, NAME_PADDED_LENGTH-n)...)), "recipients read the name that was set")
	s.profile["name"] = vfB64(sealed)
	s.profile["about"] = vfB64(vfEncrypt(key, []byte("about")))
	p, err := GetProfile(vfUser, key)
	vfAssert(err == nil, "an unaltered profile is read")
	vfAssert(p.Name == string(name), "the name is the one that was set")
	vfAssert(p.About == "about", "the text is the one that was set")
	vfReach("read")
}

// A profile is announced with the version and the commitment of its key, and
// credentials are asked for with the same version.
//
//vf:fixedrand
func VC25_Version() {
	s := vfStart()
	key := make([]byte, 32)
	key[vfChoose("byte", 32)] = 1 + byte(vfChoose("bits", 2)*0x7f)
	vfAssert(UpdateProfile(key, vfUser, "name") == nil, "a profile the server takes is written")
	id, err := uuidToByte(vfUser)
	vfAssert(err == nil && len(id) == 16, "an account id is read")
	version, err := zkgroup.ProfileKeyGetProfileKeyVersion(key, id)
	if err != nil {
		panic("version")
	}
	commitment, err := zkgroup.ProfileKeyGetCommitment(key, id)
	if err != nil {
		panic("commitment")
	}
	var p struct {
		Version    string `json:"version"`
		Commitment []byte `json:"commitment"`
	}
	vfAssert(json.Unmarshal(s.put, &p) == nil, "a profile is written as JSON")
	vfAssert(p.Version == string(version), "a profile is announced with the version of its key")
	vfAssert(string(p.Commitment) == string(commitment), "a profile is announced with the commitment of its key")
	s.Log = nil
	GetProfileAndCredential(vfUser, key)
	vfAssert(len(s.Log) == 1, "the credential is asked for once")
	vfAssert(strings.HasPrefix(s.Log[0].URL, "https://main/v1/profile/"+vfUser+"/"+string(version)+"/"), "the credential is asked for with the version of the key")
	vfReach("announced")
}

// Any bytes as a name, without the JSON around it.
//
//vf:fixedrand
func VC25_AnyName() {
	n := []int{0, 1, 26, 52, 53, 54}[vfChoose("length", 6)]
	name := append(vfBytes("name", n), 0xee, 0xee)[:n]
	if n > 0 {
		vfAssume(name[n-1] != 0)
	}
	key := vfBytes("key", 32)
	b, err := encryptName(key, name, NAME_PADDED_LENGTH)
	if n > NAME_PADDED_LENGTH {
		vfAssert(err != nil, "a name that does not fit is refused")
		return
	}
	vfAssert(err == nil, "an allowed name is encrypted")
	got, err := decryptName(key, b)
	vfAssert(err == nil, "an unaltered name is decrypted")
	vfAssert(vfEq(got, name), "the name is the one that was encrypted")
	full := name[:n+2]
	vfAssert(vfAnd(full[n] == 0xee, full[n+1] == 0xee), "the memory after the name is left alone")
	vfReach("round trip")
}

// The nonce of every encryption is new.
func VC25_Nonce() {
	s := vfStart()
	key := bytes.Repeat([]byte{3}, 32)
	vfAssert(vfFresh(func() []byte {
		if UpdateProfile(key, vfUser, "name") != nil {
			panic("not written")
		}
		return s.name()[:12]
	}, nil), "the nonce of a name is random")
	vfAssert(vfFresh(func() []byte { return GenerateProfileKey() }, nil), "a profile key is random")
	vfReach("fresh")
}

// What was altered on the way, cut, or meant for another key.
//
//vf:fixedrand
func VC25_Altered() {
	s := vfStart()
	key := bytes.Repeat([]byte{3}, 32)
	sealed := vfEncrypt(key, []byte("somebody"))
	use := key
	switch vfChoose("alteration", 4) {
	case 0:
		i := vfChoose("byte", len(sealed))
		sealed[i] ^= 1 << uint(vfChoose("bit", 2)*7)
	case 1:
		sealed = sealed[:vfChoose("length", len(sealed)-1)+1]
	case 2:
		use = bytes.Repeat([]byte{4}, 32)
	case 3:
		sealed = append(sealed, 0)
	}
	_, err := decryptName(use, append([]byte{}, sealed...))
	vfAssert(err != nil, "an altered name gives an error")
	field := []string{"name", "about", "aboutEmoji"}[vfChoose("field", 3)]
	s.profile[field] = vfB64(sealed)
	p, err := GetProfile(vfUser, use)
	vfAssert(vfOr(err != nil, vfShown(p) == ""), "what cannot be decrypted is not shown")
	vfReach("refused")
}

func vfShown(p *Profile) string {
	if p == nil {
		return ""
	}
	return p.Name + p.About + p.AboutEmoji
}

// Fields decrypt independently of which others are set.
//
//vf:fixedrand
func VC25_Fields() {
	s := vfStart()
	key := bytes.Repeat([]byte{3}, 32)
	fields := []string{"name", "about", "aboutEmoji"}
	set := vfChoose("set", 8)
	for i, f := range fields {
		if set>>uint(i)&1 == 1 {
			s.profile[f] = vfB64(vfEncrypt(key, []byte(f)))
		}
	}
	p, err := GetProfile(vfUser, key)
	vfAssert(err == nil, "an unaltered profile is read")
	for i, v := range []string{p.Name, p.About, p.AboutEmoji} {
		want := ""
		if set>>uint(i)&1 == 1 {
			want = fields[i]
		}
		vfAssert(v == want, "every field is the one that was set")
	}
	vfReach("read")
}

// A profile fetched without its key never becomes the name of a contact.
//
//vf:fixedrand
func VC25_NoKey() {
	s := vfStart()
	s.profile["name"] = vfB64(vfEncrypt(bytes.Repeat([]byte{3}, 32), []byte("somebody")))
	s.profile["about"] = s.profile["name"]
	s.profile["aboutEmoji"] = s.profile["name"]
	known := vfChoose("known", 2) == 1
	if known {
		contacts.Contacts[vfUser] = contacts.Contact{UUID: vfUser, Name: "set here"}
	}
	p, err := GetProfileUUID(vfUser)
	vfAssert(vfOr(err != nil, vfShown(p) == ""), "what cannot be decrypted is not shown")
	c := contacts.Contacts[vfUser]
	vfAssert(vfAnd(c.Username == "", c.About == "", c.AboutEmoji == ""), "what cannot be decrypted is not kept")
	vfAssert(c.Name == "" || known && c.Name == "set here", "what cannot be decrypted is not kept as a name")
	vfReach("fetched")
}

// The server answers for somebody else: nobody's contact and no file changes.
//
//vf:fixedrand
func VC25_OtherAccount() {
	s := vfStart()
	contacts.Contacts[vfOther] = contacts.Contact{UUID: vfOther, Name: "other"}
	who := []string{vfOther, "../../escaped", "", "x"}[vfChoose("uuid", 4)]
	s.profile["uuid"] = who
	if vfChoose("avatar", 2) == 1 {
		s.profile["avatar"] = "profiles/a"
		s.avatar = make([]byte, 40)
	}
	GetProfileUUID(vfUser)
	for id, c := range contacts.Contacts {
		vfAssert(vfOr(id == vfUser, id == vfOther), "a profile is kept for the account it was asked for")
		vfAssert(c.UUID == id, "a contact keeps its identifier")
	}
	o := contacts.Contacts[vfOther]
	vfAssert(vfAnd(o.Name == "other", o.Username == "", !o.HasAvatar), "other contacts stay as they are")
	vfReach("asked")
}

// Avatars: any bytes and any key give bytes or an error.
func VC25_AvatarBytes() {
	key := vfBytes("key", []int{0, 1, 16, 31, 32, 33}[vfChoose("key length", 6)])
	b := vfBytes("avatar", vfChoose("length", 31+10*vfTier()))
	out, err := decryptAvatar(b, key)
	vfAssert(vfImplies(len(b) < 28, err != nil), "an avatar too short to be one is refused")
	vfAssert(vfImplies(err == nil, len(out) == len(b)-28), "an avatar has the length that was encrypted")
	vfReach("returned")
}

// Avatars that were encrypted for the key arrive unchanged, altered ones not at all.
func VC25_Avatar() {
	key := bytes.Repeat([]byte{3}, 32)
	pic := vfBytes("picture", vfChoose("length", 18))
	nonce := bytes.Repeat([]byte{1}, 12)
	ct, err := crypto.AesgcmEncrypt(key, nonce, pic)
	if err != nil {
		panic("set-up")
	}
	b := append(append([]byte{}, nonce...), ct...)
	if vfChoose("altered", 2) == 1 {
		i := vfChoose("byte", len(b))
		b[i] ^= 0x10
		_, err := decryptAvatar(b, key)
		vfAssert(err != nil, "an altered avatar gives an error")
		vfReach("refused")
		return
	}
	out, err := decryptAvatar(b, key)
	vfAssert(err == nil, "an unaltered avatar is decrypted")
	vfAssert(vfEq(out, pic), "the picture is the one that was encrypted")
	vfReach("decrypted")
}

// Pictures are kept by account.
func VC25_AvatarFiles() {
	vfStart()
	a, b := vfBytes("a", 3), vfBytes("b", 2)
	vfAssert(SaveAvatar(vfUser, a) == nil, "a picture is saved")
	vfAssert(SaveAvatar(vfOther, b) == nil, "a picture is saved")
	for i, id := range []string{vfUser, vfOther} {
		r, err := GetLocalAvatar(id)
		vfAssert(err == nil, "a saved picture is found")
		got, err := io.ReadAll(r)
		vfAssert(vfAnd(err == nil, vfEq(got, [][]byte{a, b}[i])), "the picture is the one that was saved")
	}
	if vfChoose("shorter", 2) == 1 {
		vfAssert(SaveAvatar(vfUser, b[:1]) == nil, "a picture is replaced")
		r, err := GetLocalAvatar(vfUser)
		vfAssert(err == nil, "a saved picture is found")
		got, err := io.ReadAll(r)
		vfAssert(vfAnd(err == nil, vfEq(got, b[:1])), "the picture is the one that was saved last")
	}
	vfAssert(SaveAvatar("", a) != nil, "a picture belongs to an account")
	vfReach("kept")
}

var vfBodies = []string{"", "null", "{}", "[]", `"text"`, "7", "{", `{"name":5}`, `{"name":null,"uuid":null,"avatar":null}`,
	`{"name":"!"}`, `{"name":"AAAA"}`, `{"about":"!"}`, `{"identityKey":"!"}`, `{"identityKey":""}`, `{"credential":""}`, `{"credential":"AA=="}`, `{"credential":null}`,
	`{"avatar":"a"}`, `{"avatar":"%zz"}`, `{"unidentifiedAccess":"x"}`, `{"capabilities":null,"badges":null}`, `{"uuid":"` + vfUser + `","avatar":"a","identityKey":"AAAA"}`}

// Whatever the server answers, there is a result or an error.
//
//vf:fixedrand
func VC25_Answers() {
	s := vfStart()
	status := []int{200, 204, 400, 404, 500}[vfChoose("status", 5)]
	if status == 404 || status == 204 {
		status = []int{404, 204}[vfChoose("other status", 2)]
	}
	body := vfBodies[vfChoose("body", len(vfBodies))]
	avatar := vfChoose("picture", 3)
	if !strings.Contains(body, "avatar") {
		vfAssume(avatar == 0)
	}
	s.Answer = func(r *vftransport.VfReq) vftransport.VfAnswer {
		if r.Which == "cdn" {
			return vftransport.VfAnswer{Status: []int{200, 404, 200}[avatar], Body: make([]byte, avatar*7)}
		}
		return vftransport.VfAnswer{Status: status, Body: []byte(body)}
	}
	key := bytes.Repeat([]byte{3}, 32)
	var err error
	switch vfChoose("call", 6) {
	case 0:
		_, err = GetProfile(vfUser, key)
	case 1:
		_, err = GetProfileUUID(vfUser)
	case 2:
		contacts.Contacts[vfUser] = contacts.Contact{UUID: vfUser, ProfileKey: key}
		_, err = GetProfileUUID(vfUser)
		vfAssert(err != nil, "a profile without a credential is an error")
	case 3:
		_, err = GetProfileAndCredential(vfUser, key)
		vfAssert(err != nil, "a profile without a credential is an error")
	case 4:
		_, err = GetProfileE164("+15550001")
	case 5:
		err = UpdateProfile(key, vfUser, "name")
	}
	vfAssert(vfImplies(status >= 400, err != nil), "an error of the server is an error")
	vfReach("answered")
}

// The connection breaks.
//
//vf:fixedrand
func VC25_Lost() {
	s := vfStart()
	after := vfChoose("after", 3)
	old := s.Answer
	s.Answer = func(r *vftransport.VfReq) vftransport.VfAnswer {
		if len(s.Log) > after {
			return vftransport.VfAnswer{Err: io.ErrUnexpectedEOF}
		}
		return old(r)
	}
	key := bytes.Repeat([]byte{3}, 32)
	var err error
	switch vfChoose("call", 4) {
	case 0:
		_, err = GetProfile(vfUser, key)
	case 1:
		_, err = GetProfileUUID(vfUser)
	case 2:
		_, err = GetProfileE164("+15550001")
	case 3:
		err = UpdateProfile(key, vfUser, "name")
	}
	vfAssert(vfImplies(after == 0, err != nil), "a broken connection is an error")
	vfReach("lost")
}

// Keys and identifiers that are none.
//
//vf:fixedrand
func VC25_Arguments() {
	vfStart()
	key := make([]byte, []int{0, 1, 31, 32, 33}[vfChoose("key length", 5)])
	id := []string{"", "x", vfUser}[vfChoose("uuid", 3)]
	bad := id != vfUser || len(key) != 32
	switch vfChoose("call", 3) {
	case 0:
		err := UpdateProfile(key, id, "name")
		vfAssert(vfImplies(bad, err != nil), "no profile is written for an account or key that is none")
	case 1:
		_, err := GetProfileAndCredential(id, key)
		vfAssert(err != nil, "no credential without an answer")
	case 2:
		GetProfile(id, key)
	}
	vfReach("returned")
}
