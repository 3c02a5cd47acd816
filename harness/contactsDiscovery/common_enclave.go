package contactsDiscovery

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/json"
	"io"

	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/hkdf"
)

// VfEnclave is a contact discovery enclave: it answers the attestation of a
// client, and reads and answers its query.
type VfEnclave struct {
	EphPriv, EphPub, StaPriv, StaPub [32]byte
	RequestID, IV                    []byte
	ClientKey, ServerKey             []byte
}

// VfNewEnclave makes an enclave from two private keys.
func VfNewEnclave(eph, sta, requestID []byte) *VfEnclave {
	e := &VfEnclave{RequestID: requestID, IV: make([]byte, 12)}
	copy(e.EphPriv[:], eph)
	copy(e.StaPriv[:], sta)
	curve25519.ScalarBaseMult(&e.EphPub, &e.EphPriv)
	curve25519.ScalarBaseMult(&e.StaPub, &e.StaPriv)
	return e
}

// VfSeal encrypts and appends the tag.
func VfSeal(key, iv, data, aad []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic("key: " + err.Error())
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		panic("gcm: " + err.Error())
	}
	return g.Seal(nil, iv, data, aad)
}

// VfOpen decrypts data with its tag.
func VfOpen(key, iv, data, tag, aad []byte) ([]byte, bool) {
	b, err := aes.NewCipher(key)
	if err != nil || len(iv) != 12 {
		return nil, false
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		return nil, false
	}
	p, err := g.Open(nil, iv, append(append([]byte{}, data...), tag...), aad)
	return p, err == nil
}

// Attest answers the client's public key.
func (e *VfEnclave) Attest(clientPublic []byte) *RemoteAttestationResponse {
	if len(clientPublic) != 32 {
		panic("client key has a wrong length")
	}
	var pub, ee, es [32]byte
	copy(pub[:], clientPublic)
	curve25519.ScalarMult(&ee, &e.EphPriv, &pub)
	curve25519.ScalarMult(&es, &e.StaPriv, &pub)
	salt := append(append(append([]byte{}, pub[:]...), e.EphPub[:]...), e.StaPub[:]...)
	keys := make([]byte, 64)
	if _, err := io.ReadFull(hkdf.New(sha256.New, append(append([]byte{}, ee[:]...), es[:]...), salt, nil), keys); err != nil {
		panic("hkdf")
	}
	e.ClientKey, e.ServerKey = keys[:32], keys[32:]
	c := VfSeal(e.ServerKey, e.IV, e.RequestID, nil)
	n := len(e.RequestID)
	return &RemoteAttestationResponse{ServerEphemeralPublic: append([]byte{}, e.EphPub[:]...), ServerStaticPublic: append([]byte{}, e.StaPub[:]...), Iv: e.IV, Ciphertext: c[:n], Tag: c[n:]}
}

// VfClientPublic reads the key from an attestation request.
func VfClientPublic(body []byte) []byte {
	var q struct{ ClientPublic []byte }
	if json.Unmarshal(body, &q) != nil {
		panic("attestation request is not JSON")
	}
	return q.ClientPublic
}

// VfAttestations is the body that answers an attestation request.
func VfAttestations(m map[string]*RemoteAttestationResponse) []byte {
	b, err := json.Marshal(map[string]interface{}{"attestations": m})
	if err != nil {
		panic("attestations not encoded")
	}
	return b
}

// VfQuery is a discovery request as the server gets it.
type VfQuery struct {
	AddressCount int                    `json:"addressCount"`
	Commitment   []byte                 `json:"commitment"`
	Data         []byte                 `json:"data"`
	Envelopes    map[string]*VfEnvelope `json:"envelopes"`
	Iv           []byte                 `json:"iv"`
	Mac          []byte                 `json:"mac"`
}

type VfEnvelope struct {
	Data      []byte `json:"data"`
	Iv        []byte `json:"iv"`
	Mac       []byte `json:"mac"`
	RequestId []byte `json:"requestId"`
}

// Read opens the envelope of this enclave and the query.
func (e *VfEnclave) Read(q *VfQuery, name string) ([]byte, bool) {
	env := q.Envelopes[name]
	if env == nil || !bytes.Equal(env.RequestId, e.RequestID) {
		return nil, false
	}
	key, ok := VfOpen(e.ClientKey, env.Iv, env.Data, env.Mac, e.RequestID)
	if !ok || len(key) != 32 {
		return nil, false
	}
	return VfOpen(key, q.Iv, q.Data, q.Mac, nil)
}
