package textsecure

//vf:use signup

import (
	"bytes"
	"encoding/base64"
	"encoding/json"

	zkgroup "github.com/nanu-c/zkgroup"
	uuidUtil "github.com/satori/go.uuid"
	"github.com/signal-golang/textsecure/config"
)

func vfMustZk(err error) {
	if err != nil {
		panic("set-up: " + err.Error())
	}
}

func vfZkServer(seed byte) (zkgroup.ServerSecretParams, zkgroup.ServerPublicParams) {
	p, err := zkgroup.GenerateServerSecretParamsDeterministic(bytes.Repeat([]byte{seed}, 32))
	vfMustZk(err)
	pub, err := p.PublicParams()
	vfMustZk(err)
	return p, pub
}

// The first start gets a credential for the account and the profile key, which
// later starts go on using; what another server issued is not kept.
//
//vf:fixedrand
func VC44_Credential() {
	secret, pub := vfZkServer(0)
	config.ZKGROUP_SERVER_PUBLIC_PARAMS = base64.StdEncoding.EncodeToString(pub)
	w := vfNewSignup()
	other := vfChoose("issued by", 3)
	asked := 0
	w.issue = func(request []byte) []byte {
		asked++
		var put struct {
			Commitment []byte `json:"commitment"`
		}
		vfMustZk(json.Unmarshal(w.profile, &put))
		by, id := secret, uuidUtil.FromStringOrNil(config.ConfigFile.UUID)
		switch {
		case other == 1 && asked == 1:
			by, _ = vfZkServer(1)
		case other == 2 && asked == 1:
			id[3] ^= 1
		}
		c, err := zkgroup.NewServerZkProfileOperations(by).IssueProfileKeyCredential(request, id[:], put.Commitment)
		if err != nil {
			return nil
		}
		return c
	}
	err := w.start()
	w.stop()
	vfAssert(asked == 1, "a credential is asked for")
	if other > 0 {
		vfAssert(err != nil && len(config.ConfigFile.ProfileKeyCredential) == 0, "a credential the server did not issue for the account is reported and not kept")
		c, err := ReadConfig(w.conf)
		vfAssert(err == nil && len(c.ProfileKeyCredential) == 0, "nor saved")
		err = w.start()
		w.stop()
		vfAssert(err == nil && asked == 2, "the next start asks again")
	} else {
		vfAssert(err == nil, "the client starts")
	}
	first := config.ConfigFile.ProfileKeyCredential
	c, err := ReadConfig(w.conf)
	vfAssert(err == nil && len(first) > 0 && bytes.Equal(c.ProfileKeyCredential, first), "the credential is saved")
	if len(first) == 0 {
		return
	}
	g, err := zkgroup.NewGroupSecretParams(bytes.Repeat([]byte{7}, 32))
	vfMustZk(err)
	raw, err := pub.CreateProfileKeyCredentialPresentation(g, first)
	vfAssert(err == nil, "it can be presented")
	if err == nil {
		pr, err := zkgroup.NewProfileKeyCredentialPresentation(raw)
		vfMustZk(err)
		ct, err := pr.UUIDCiphertext()
		vfMustZk(err)
		kt, err := pr.ProfileKeyCiphertext()
		vfMustZk(err)
		z := zkgroup.NewClientZkGroupCipher(g)
		who, err := z.DecryptUUID(ct)
		vfMustZk(err)
		id := uuidUtil.FromStringOrNil(config.ConfigFile.UUID)
		what, err := z.DecryptProfileKey(kt, id[:])
		vfMustZk(err)
		vfAssert(bytes.Equal(who, id[:]) && bytes.Equal(what, config.ConfigFile.ProfileKey), "with the account and its profile key")
	}
	n := asked
	vfAssert(w.start() == nil && asked == n, "the next start does not ask again")
	w.stop()
	vfAssert(bytes.Equal(config.ConfigFile.ProfileKeyCredential, first), "and goes on using it")
	vfReach("used")
}
