package axolotl

import (
	"crypto/aes"
	"crypto/cipher"
)

// C13: AES-CBC message encryption.

// Round trip for every length, key, IV and plaintext, and the caller's
// plaintext is left alone.
func VC13_RoundTrip() {
	n := vfLen("n", 0, 100)
	keyLen := 32
	key := vfBytes("key", keyLen)
	iv := vfBytes("iv", 16)
	pt := vfBytes("pt", n)
	orig := append([]byte{}, pt...)
	ct, err := Encrypt(key, iv, pt)
	vfAssert(err == nil, "encrypting succeeds")
	vfAssert(len(ct) > n && len(ct)%16 == 0 && len(ct) <= n+16, "ciphertext is padded to whole blocks")
	vfAssert(vfEq(pt, orig), "plaintext is not modified")
	in := append(append([]byte{}, iv...), ct...)
	out, err := Decrypt(key, in)
	vfAssert(err == nil, "decrypting what was encrypted succeeds")
	vfAssert(vfEq(out, orig), "decryption returns exactly the original bytes")
	vfObs("ct", ct)
	vfReach("round trip")
}

// Any bytes at all, under any key length: an error or bytes, never a crash.
// Block-aligned input is written as the CBC encryption of arbitrary blocks
// (CBC is a bijection, so this is every input), which keeps counterexamples
// meaningful for the real cipher.
func VC13_Malformed() {
	n := vfLen("n", 0, 98)
	key := vfBytes("key", []int{32, 16, 0, 31}[vfChoose("keylen", 4)])
	in := vfBytes("in", n)
	if n > 16 && n%16 == 0 && len(key)%16 == 0 && len(key) > 0 {
		b, _ := aes.NewCipher(key)
		cipher.NewCBCEncrypter(b, in[:16]).CryptBlocks(in[16:], in[16:])
	}
	out, err := Decrypt(key, in)
	vfReach("returned")
	vfAssert(vfImplies(err == nil, len(out) <= n), "no more bytes than ciphertext")
	vfAssert(vfImplies(n%16 != 0, err != nil), "partial blocks are refused")
}

// Longer ones, around the ends of blocks.
func VC13_Long() {
	n := []int{159, 160, 161, 255, 256, 257, 319, 320, 1023, 1024, 1025, 4096}[vfChoose("n", 12)]
	key, iv, pt := vfBytes("key", 32), vfBytes("iv", 16), vfBytes("pt", n)
	ct, err := Encrypt(key, iv, pt)
	vfAssert(err == nil, "encrypting succeeds")
	out, err := Decrypt(key, append(append([]byte{}, iv...), ct...))
	vfAssert(err == nil, "decrypting what was encrypted succeeds")
	vfAssert(vfEq(out, pt), "decryption returns exactly the original bytes")
	vfReach("round trip")
}
