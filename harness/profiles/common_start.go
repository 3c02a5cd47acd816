package profiles

//vf:use transport/fake

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"path/filepath"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crypto"
	vftransport "github.com/signal-golang/textsecure/transport"
)

const (
	vfUser  = "9d0652a3-dcc3-4d11-975f-74d61598733f"
	vfOther = "11111111-2222-4333-8444-555555555555"
)

var vfB64 = base64.StdEncoding.EncodeToString

// vfServer keeps the profile that was written and answers with it.
type vfServer struct {
	*vftransport.VfServer
	put     []byte            // body of the last PUT
	profile map[string]string // answer to the GETs
	avatar  []byte
}

func vfStart() *vfServer {
	dir := vfTempDir()
	s := &vfServer{profile: map[string]string{"uuid": vfUser, "identityKey": vfB64(make([]byte, 33))}}
	s.VfServer = &vftransport.VfServer{Answer: func(r *vftransport.VfReq) vftransport.VfAnswer {
		if r.Which == "cdn" {
			return vftransport.VfAnswer{Status: 200, Body: s.avatar}
		}
		if r.Method == "PUT" {
			s.put = r.Body
			return vftransport.VfAnswer{Status: 200}
		}
		b, err := json.Marshal(s.profile)
		if err != nil {
			panic("profile not encoded")
		}
		return vftransport.VfAnswer{Status: 200, Body: b}
	}}
	vftransport.VfFake(s.VfServer)
	config.ConfigFile = &config.Config{UUID: vfUser, ProfileKey: bytes.Repeat([]byte{9}, 32), StorageDir: dir}
	avatarsPath = ""
	contacts.Contacts = map[string]contacts.Contact{}
	contacts.ReadContacts(filepath.Join(dir, "contacts.yml"))
	return s
}

// name is the encrypted name that was written last.
func (s *vfServer) name() []byte {
	var p struct {
		Name []byte `json:"name"`
	}
	if json.Unmarshal(s.put, &p) != nil {
		panic("what was written is not JSON")
	}
	return p.Name
}

// vfOpenName decrypts as the recipients do: nonce, AES-GCM, zero padding.
func vfOpenName(key, b []byte) ([]byte, bool) {
	if len(b) < 28 {
		return nil, false
	}
	p, err := crypto.AesgcmDecrypt(key, b[:12], b[12:len(b)-16], append([]byte{}, b[len(b)-16:]...))
	return p, err == nil
}

func vfEncrypt(key, name []byte) []byte {
	b, err := encryptName(key, name, NAME_PADDED_LENGTH)
	if err != nil {
		panic("name not encrypted")
	}
	return b
}
