package groupsv2

import (
	"bytes"

	"github.com/nanu-c/zkgroup"
)

const vfMe = "9d0652a3-dcc3-4d11-975f-74d61598733f"

func vfKey() []byte { return bytes.Repeat([]byte{7}, 32) }

// vfID is the id of person i, 0 being the user.
func vfID(i int) []byte {
	if i == 0 {
		return uuidToByte(vfMe)
	}
	return bytes.Repeat([]byte{byte(i)}, 16)
}

func vfProfileKey(i int) []byte { return bytes.Repeat([]byte{byte(100 + i)}, 32) }

// vfSealed makes group data as members and servers do.
type vfSealed struct {
	params zkgroup.GroupSecretParams
	cipher *zkgroup.ClientZkGroupCipher
	server zkgroup.ServerSecretParams
}

func vfMust(err error) {
	if err != nil {
		panic("set-up: " + err.Error())
	}
}

func vfSealer(key []byte) *vfSealed {
	p, err := zkgroup.NewGroupSecretParams(key)
	vfMust(err)
	s, err := zkgroup.GenerateServerSecretParamsDeterministic(make([]byte, 32))
	vfMust(err)
	return &vfSealed{p, zkgroup.NewClientZkGroupCipher(p), s}
}

func (s *vfSealed) id(i int) []byte {
	b, err := s.cipher.EncryptUUID(vfID(i))
	vfMust(err)
	return b
}

func (s *vfSealed) blob(text string) []byte {
	b, err := s.cipher.EncryptBlobDeterministic(make([]byte, 32), []byte(text))
	vfMust(err)
	return b
}

// presentation proves who person i is and gives the profile key.
func (s *vfSealed) presentation(i int) []byte {
	pub, err := s.server.PublicParams()
	vfMust(err)
	ctx, err := zkgroup.CreateProfileKeyCredentialRequestContext(pub, vfID(i), vfProfileKey(i))
	vfMust(err)
	req, err := ctx.ProfileKeyCredentialRequestContextGetRequest()
	vfMust(err)
	commitment, err := zkgroup.ProfileKeyGetCommitment(vfProfileKey(i), vfID(i))
	vfMust(err)
	resp, err := zkgroup.NewServerZkProfileOperations(s.server).IssueProfileKeyCredential(req, vfID(i), commitment)
	vfMust(err)
	cred, err := pub.ReceiveProfileKeyCredential(ctx, resp)
	vfMust(err)
	p, err := pub.CreateProfileKeyCredentialPresentation(s.params, cred)
	vfMust(err)
	return p
}

func (s *vfSealed) profileKey(i int) []byte {
	p, err := zkgroup.NewProfileKeyCredentialPresentation(s.presentation(i))
	vfMust(err)
	b, err := p.ProfileKeyCiphertext()
	vfMust(err)
	return b
}
