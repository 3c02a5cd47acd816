package textsecure

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"io"

	"github.com/golang/protobuf/proto"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/hkdf"
)

// vfProvisioned reads a provisioning message with the private key of the new
// device; ok tells whether it is one.
func vfProvisioned(priv *[32]byte, env []byte) (pm *signalservice.ProvisionMessage, ok bool) {
	pe := &signalservice.ProvisionEnvelope{}
	if proto.Unmarshal(env, pe) != nil || len(pe.PublicKey) != 33 || pe.PublicKey[0] != 5 || len(pe.Body) < 1+32+32 {
		return nil, false
	}
	var pub, shared [32]byte
	copy(pub[:], pe.PublicKey[1:])
	curve25519.ScalarMult(&shared, priv, &pub)
	keys := make([]byte, 64)
	if _, err := io.ReadFull(hkdf.New(sha256.New, shared[:], nil, []byte("TextSecure Provisioning Message")), keys); err != nil {
		return nil, false
	}
	n := len(pe.Body) - 32
	m := hmac.New(sha256.New, keys[32:])
	m.Write(pe.Body[:n])
	if !vfEq(m.Sum(nil), pe.Body[n:]) || pe.Body[0] != 1 || (n-1)%16 != 0 {
		return nil, false
	}
	block, err := aes.NewCipher(keys[:32])
	if err != nil {
		return nil, false
	}
	plain := make([]byte, n-1-16)
	cipher.NewCBCDecrypter(block, pe.Body[1:17]).CryptBlocks(plain, pe.Body[17:n])
	pad := int(plain[len(plain)-1])
	if pad < 1 || pad > 16 {
		return nil, false
	}
	for _, b := range plain[len(plain)-pad:] {
		if int(b) != pad {
			return nil, false
		}
	}
	pm = &signalservice.ProvisionMessage{}
	return pm, proto.Unmarshal(plain[:len(plain)-pad], pm) == nil
}
