package textsecure

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"

	"github.com/signal-golang/textsecure/registration"
)

// C19: encrypted envelopes from the server are authenticated or refused.

// vfServerEnvelope is what the server sends for content under the signaling
// key: version, IV, AES-CBC ciphertext and ten bytes of HMAC-SHA256.
func vfServerEnvelope(key []byte, version byte, content []byte) []byte {
	iv := make([]byte, 16)
	randBytes(iv)
	pad := 16 - len(content)%16
	plain := append(append([]byte{}, content...), bytes.Repeat([]byte{byte(pad)}, pad)...)
	block, err := aes.NewCipher(key[:32])
	if err != nil {
		panic(err.Error())
	}
	ct := make([]byte, len(plain))
	cipher.NewCBCEncrypter(block, iv).CryptBlocks(ct, plain)
	msg := append(append([]byte{version}, iv...), ct...)
	m := hmac.New(sha256.New, key[32:])
	m.Write(msg)
	return append(msg, m.Sum(nil)[:10]...)
}

func vfSignalingKey() []byte {
	k := generateSignalingKey()
	vfAssert(vfAnd(len(k) == 52, k[0] == 1), "signaling keys have 52 bytes and version 1")
	registration.Registration.SignalingKey = k
	return k
}

// vfRaw: msg was refused or passed on as it was.
func vfRaw(msg []byte, what string) {
	got, err := decryptReceivedMessage(append([]byte{}, msg...))
	if err == nil {
		vfAssert(vfEq(got, msg), what)
		vfReach("passed on")
	} else {
		vfReach("refused")
	}
}

//vf:fixedrand
func VC19_Good() {
	k := vfSignalingKey()
	content := vfBytes("content", []int{0, 1, 15, 16, 17, 40}[vfChoose("length", 6)])
	got, err := decryptReceivedMessage(vfServerEnvelope(k, 1, content))
	vfAssert(err == nil, "an encrypted envelope is decrypted")
	vfAssert(vfEq(got, content), "the envelope is what the server encrypted")
	vfReach("decrypted")
}

//vf:fixedrand
func VC19_Altered() {
	k := vfSignalingKey()
	content := []byte("sixteen bytes...")[:[]int{3, 16}[vfChoose("length", 2)]]
	msg := vfServerEnvelope(k, 1, content)
	switch vfChoose("alteration", 5) {
	case 0:
		m := vfU8("mask")
		vfAssume(m != 0)
		msg[vfChoose("byte", len(msg))] ^= m
	case 1:
		msg = msg[:vfChoose("cut", len(msg))]
	case 2:
		msg = append(msg, make([]byte, 1+vfChoose("more bytes", 16))...)
	case 3:
		msg = msg[1+vfChoose("dropped", len(msg)-1):]
	case 4:
		// sent to someone else
		m := vfU8("mask")
		vfAssume(m != 0)
		k[32+vfChoose("byte", 20)] ^= m
	}
	vfRaw(msg, "an altered envelope is not decrypted")
}

// An authentic envelope of another version.
//
//vf:fixedrand
func VC19_Version() {
	k := vfSignalingKey()
	v := vfU8("version")
	vfAssume(v != 1)
	vfRaw(vfServerEnvelope(k, v, vfBytes("content", 5)), "an envelope of an unsupported version is not decrypted")
}

// An authentic envelope whose content is not a ciphertext.
//
//vf:fixedrand
func VC19_NoCiphertext() {
	k := vfSignalingKey()
	msg := append([]byte{1}, vfBytes("body", vfChoose("length", 50))...)
	m := hmac.New(sha256.New, k[32:])
	m.Write(msg)
	got, err := decryptReceivedMessage(append(append([]byte{}, msg...), m.Sum(nil)[:10]...))
	if len(msg) < 33 || len(msg)%16 != 1 {
		vfAssert(vfOr(err != nil, len(got) == len(msg)+10), "what is no ciphertext is not decrypted")
	}
	vfReach("handled")
}

// Any bytes, any stored signaling key.
//
//vf:fixedrand
func VC19_Arbitrary() {
	registration.Registration.SignalingKey = vfBytes("key", []int{0, 1, 31, 32, 33, 51, 52, 53}[vfChoose("key length", 8)])
	msg := vfBytes("message", vfChoose("length", 30+30*vfTier()))
	if len(registration.Registration.SignalingKey) != 52 || len(msg) < 43 {
		vfRaw(msg, "without a signaling key, or a ciphertext, nothing is decrypted")
	} else {
		decryptReceivedMessage(msg)
	}
	vfReach("handled")
}

// An envelope made with a key of the wrong length.
//
//vf:fixedrand
func VC19_ShortKey() {
	k := vfBytes("key", []int{32, 33, 40, 51, 53, 64}[vfChoose("key length", 6)])
	registration.Registration.SignalingKey = k
	vfRaw(vfServerEnvelope(k, 1, []byte("content")), "nothing is decrypted under a key that is none")
}
