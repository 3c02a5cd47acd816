package textsecure

//vf:use server

import (
	"bytes"
	"os"
	"path/filepath"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/helpers"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// C39: secrets come from the secure random source, whole.

var vfClamped = append(append([]byte{7}, make([]byte, 30)...), 0xc0)

func VC39_Account() {
	vfAssert(vfFresh(func() []byte {
		b, err := helpers.Base64DecodeNonPadded(generatePassword())
		if err != nil || len(b) < 16 {
			panic("password")
		}
		return b
	}, nil), "the password is 16 random bytes")
	vfAssert(vfFresh(func() []byte { return generateSignalingKey()[1:] }, nil), "the signaling key is random in all its bytes")
	vfAssert(vfFresh(func() []byte {
		id := generateRegistrationID()
		return []byte{byte(id >> 8), byte(id)}
	}, []byte{0xc0}), "the registration id is 14 random bits")
	vfReach("generated")
}

func VC39_Values() {
	vfAssert(vfFresh(func() []byte { return newGroupID() }, nil), "a group id is random")
	key := make([]byte, 32)
	vfAssert(vfFresh(func() []byte {
		c, err := aesEncrypt(key, []byte("same text"))
		if err != nil {
			panic("not encrypted")
		}
		return c[:16]
	}, nil), "the IV is random")
	vfReach("generated")
}

// The salt the storage key is derived with.
func VC39_Salt() {
	vfAssert(vfFresh(func() []byte {
		dir := vfTempDir()
		if _, err := newStore("password", dir); err != nil {
			panic("no store")
		}
		b, err := os.ReadFile(filepath.Join(dir, "salt"))
		if err != nil {
			panic("no salt")
		}
		return b
	}, nil), "the salt of the store is random")
	vfReach("generated")
}

func vfOpenClient() {
	vfClient(vfTempDir(), func(r *vftransport.VfReq) vftransport.VfAnswer { return vftransport.VfAnswer{Status: 500} })
}

func VC39_PreKeys() {
	vfOpenClient()
	vfAssert(vfFresh(func() []byte {
		if generatePreKey(5) != nil {
			panic("no prekey")
		}
		r, err := textSecureStore.LoadPreKey(5)
		if err != nil {
			panic("not stored")
		}
		return r.Pkrs.PrivateKey
	}, vfClamped), "a one-time prekey is random in all its bits")
	vfAssert(vfFresh(func() []byte {
		r, err := generateSignedPreKey()
		if err != nil {
			panic("no signed prekey")
		}
		return r.Spkrs.PrivateKey
	}, vfClamped), "a signed prekey is random in all its bits")
	vfReach("generated")
}

func VC39_Attachment() {
	var blob []byte
	vfClient(vfTempDir(), func(r *vftransport.VfReq) vftransport.VfAnswer {
		switch r.Method {
		case "GET":
			return vftransport.VfAnswer{Status: 200, Body: []byte(`{"cdn":2,"key":"k","headers":{"x-goog":"1"},"signedUploadLocation":"https://cdn2.signal.org/form/k"}`)}
		case "POST":
			return vftransport.VfAnswer{Status: 201, Header: map[string]string{"Location": "https://cdn2.signal.org/upload/k?id=1"}}
		}
		blob = r.Body
		return vftransport.VfAnswer{Status: 200}
	})
	vfAssert(vfFresh(func() []byte { return vfUploadKeys([]byte("text")) }, nil), "the keys of an attachment are random")
	vfAssert(vfFresh(func() []byte {
		vfUploadKeys([]byte("text"))
		return blob[:16]
	}, nil), "the IV of an attachment is random")
	vfReach("uploaded")
}

func vfUploadKeys(b []byte) []byte {
	a, err := uploadAttachment(bytes.NewReader(b), "image/png")
	if err != nil {
		panic("not uploaded")
	}
	return a.keys
}

func VC39_Identity() {
	vfOpenClient()
	vfAssert(vfFresh(func() []byte { return axolotl.GenerateIdentityKeyPair().PrivateKey.Key()[:] }, vfClamped), "an identity key is random in all its bits")
	vfReach("generated")
}
