package profiles

//vf:use start

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"io"
	"strings"

	zkgroup "github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crypto"
	vftransport "github.com/signal-golang/textsecure/transport"
)

func vfMust(err error) {
	if err != nil {
		panic("set-up: " + err.Error())
	}
}

func vfIssuer(seed byte) (zkgroup.ServerSecretParams, zkgroup.ServerPublicParams) {
	p, err := zkgroup.GenerateServerSecretParamsDeterministic(bytes.Repeat([]byte{seed}, 32))
	vfMust(err)
	pub, err := p.PublicParams()
	vfMust(err)
	return p, pub
}

// The credential which the server issues for the profile that was written is
// accepted and proves the account and the key; others are errors.
//
//vf:fixedrand
func VC25_Credential() {
	s := vfStart()
	secret, pub := vfIssuer(0)
	config.ZKGROUP_SERVER_PUBLIC_PARAMS = vfB64(pub)
	key := bytes.Repeat([]byte{byte(3 + vfChoose("key", 2))}, 32)
	vfAssert(UpdateProfile(key, vfUser, "name") == nil, "a profile the server takes is written")
	var put struct {
		Commitment []byte `json:"commitment"`
	}
	vfMust(json.Unmarshal(s.put, &put))
	id, err := uuidToByte(vfUser)
	vfMust(err)
	kind := vfChoose("credential", 6)
	old := s.Answer
	s.Answer = func(r *vftransport.VfReq) vftransport.VfAnswer {
		part := strings.Split(r.URL, "/")
		req, err := hex.DecodeString(part[len(part)-1])
		if r.Method != "GET" || err != nil || len(req) == 0 {
			return vftransport.VfAnswer{Status: 404}
		}
		by, of, commitment := secret, id, put.Commitment
		switch kind {
		case 1: // another server's
			by, _ = vfIssuer(1)
		case 2: // for another account
			of, err = uuidToByte(vfOther)
			vfMust(err)
		case 3: // for another key
			commitment, err = zkgroup.ProfileKeyGetCommitment(bytes.Repeat([]byte{77}, 32), id)
			vfMust(err)
		}
		c, err := zkgroup.NewServerZkProfileOperations(by).IssueProfileKeyCredential(req, of, commitment)
		if err != nil {
			return vftransport.VfAnswer{Status: 400}
		}
		switch kind {
		case 4:
			c[1+vfChoose("byte", 2)*30] ^= 1 << (3 * vfChoose("bit", 3))
		case 5:
			c = c[:[]int{1, 32, len(c) - 1}[vfChoose("length", 3)]]
		}
		s.profile["credential"] = vfB64(c)
		return old(r)
	}
	p, err := GetProfileAndCredential(vfUser, key)
	if kind > 0 {
		vfAssert(err != nil, "a credential that is not the server's for the profile is an error")
		vfReach("refused")
		return
	}
	vfAssert(err == nil, "the server's credential is accepted")
	if err != nil {
		return
	}
	g, err := zkgroup.NewGroupSecretParams(bytes.Repeat([]byte{7}, 32))
	vfMust(err)
	gp, err := g.PublicParams()
	vfMust(err)
	raw, err := pub.CreateProfileKeyCredentialPresentation(g, p.Credential)
	vfAssert(err == nil, "and can be presented")
	if err != nil {
		return
	}
	vfAssert(zkgroup.NewServerZkProfileOperations(secret).VerifyProfileKeyCredentialPresentation(gp, raw) == nil, "to the server")
	pr, err := zkgroup.NewProfileKeyCredentialPresentation(raw)
	vfMust(err)
	ct, err := pr.UUIDCiphertext()
	vfMust(err)
	kt, err := pr.ProfileKeyCiphertext()
	vfMust(err)
	c := zkgroup.NewClientZkGroupCipher(g)
	who, err := c.DecryptUUID(ct)
	vfMust(err)
	what, err := c.DecryptProfileKey(kt, id)
	vfMust(err)
	vfAssert(bytes.Equal(who, id) && bytes.Equal(what, key), "with the account and its key")
	vfReach("accepted")
}

// vfIssues lets the server issue credentials for the profile of an account.
func vfIssues(s *vfServer, account string, key []byte) {
	secret, pub := vfIssuer(0)
	config.ZKGROUP_SERVER_PUBLIC_PARAMS = vfB64(pub)
	id, err := uuidToByte(account)
	vfMust(err)
	commitment, err := zkgroup.ProfileKeyGetCommitment(key, id)
	vfMust(err)
	old := s.Answer
	s.Answer = func(r *vftransport.VfReq) vftransport.VfAnswer {
		part := strings.Split(r.URL, "/")
		req, err := hex.DecodeString(part[len(part)-1])
		if r.Method != "GET" || r.Which != "main" || err != nil || len(req) == 0 {
			return old(r)
		}
		c, err := zkgroup.NewServerZkProfileOperations(secret).IssueProfileKeyCredential(req, id, commitment)
		if err != nil {
			return vftransport.VfAnswer{Status: 400}
		}
		s.profile["credential"] = vfB64(c)
		return old(r)
	}
}

func vfSealedPicture(key, pic []byte) []byte {
	nonce := bytes.Repeat([]byte{1}, 12)
	b, err := crypto.AesgcmEncrypt(key, nonce, pic)
	vfMust(err)
	return append(nonce, b...)
}

// The profile of a contact whose key is known: what the contact wrote is
// kept, and nothing anybody else wrote.
//
//vf:fixedrand
func VC25_Contact() {
	s := vfStart()
	key, wrong := bytes.Repeat([]byte{3}, 32), bytes.Repeat([]byte{4}, 32)
	vfIssues(s, vfOther, key)
	named := vfChoose("named", 2) == 1
	was := contacts.Contact{UUID: vfOther, Tel: "+491", ProfileKey: key, About: "earlier"}
	if named {
		was.Name = "my name for them"
	}
	contacts.Contacts[vfOther] = was
	field := func(name, text string) (shown string, good bool) {
		switch vfChoose(name, 4) {
		case 0:
			s.profile[name] = vfB64(vfEncrypt(key, []byte(text)))
			return text, true
		case 1: // none
			return "", true
		case 2: // of another key
			s.profile[name] = vfB64(vfEncrypt(wrong, []byte(text)))
		case 3: // not encrypted
			s.profile[name] = text
		}
		return "", false
	}
	name, good1 := field("name", "their name")
	about, good2 := field("about", "their text")
	good := good1 && good2
	s.profile["uuid"] = vfOther
	own := vfChoose("own", 2) == 0
	if !own {
		s.profile["uuid"] = vfUser
	}
	picture := []byte{5, 6, 7}
	kept := false
	switch vfChoose("picture", 3) {
	case 1:
		s.profile["avatar"] = "profiles/x"
		s.avatar = vfSealedPicture(key, picture)
		kept = true
	case 2:
		s.profile["avatar"] = "profiles/x"
		s.avatar = vfSealedPicture(wrong, picture)
	}
	p, err := GetProfileUUID(vfOther)
	c := contacts.Contacts[vfOther]
	vfAssert(c.Tel == was.Tel && c.UUID == vfOther && bytes.Equal(c.ProfileKey, key), "the contact stays who it is")
	vfAssert(len(contacts.Contacts) == 1, "and no other is made")
	if !good || !own {
		vfAssert(err != nil, "a profile that is not the contact's is an error")
		vfAssert(c.Name == was.Name && c.Username == "" && c.About == "earlier" && !c.HasAvatar, "and nothing of it is kept")
		vfReach("refused")
		return
	}
	vfAssert(err == nil, "the contact's profile is read")
	if err != nil {
		return
	}
	vfAssert(p.Name == name && p.About == about, "as the contact wrote it")
	vfAssert(c.Username == name, "the name is kept")
	if named {
		vfAssert(c.Name == was.Name, "beside the one the user gave")
	} else {
		vfAssert(c.Name == name, "and used")
	}
	if about != "" {
		vfAssert(c.About == about, "the text is kept")
	}
	_, err = GetLocalAvatar(vfUser)
	vfAssert(err != nil, "nobody else gets the picture")
	r, err := GetLocalAvatar(vfOther)
	vfAssert(c.HasAvatar == kept && (err == nil) == kept, "a picture is kept if it is the contact's")
	if kept && err == nil {
		b, err := io.ReadAll(r)
		vfAssert(err == nil && bytes.Equal(b, picture) && bytes.Equal(c.AvatarImg, picture), "as the contact made it")
		vfReach("picture")
	}
	vfReach("kept")
}
