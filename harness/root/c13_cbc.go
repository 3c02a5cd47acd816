package textsecure

import (
	"crypto/aes"
	"crypto/cipher"
)

// C13: AES-CBC and AES-CTR helpers of the root package.

func VC13_RootRoundTrip() {
	n := vfLen("n", 0, 100)
	key := vfBytes("key", 32)
	pt := vfBytes("pt", n)
	orig := append([]byte{}, pt...)
	ct, err := aesEncrypt(key, pt)
	vfAssert(err == nil, "encrypting succeeds")
	vfAssert(vfEq(pt, orig), "plaintext is not modified")
	out, err := aesDecrypt(key, append([]byte{}, ct...))
	vfAssert(err == nil, "decrypting what was encrypted succeeds")
	vfAssert(vfEq(out, orig), "decryption returns exactly the original bytes")
	vfReach("round trip")
}

// Any bytes at all, under any key length: an error or bytes, never a crash.
// Block-aligned input is written as the CBC encryption of arbitrary blocks
// (CBC is a bijection, so this is every input), which keeps counterexamples
// meaningful for the real cipher.
func VC13_RootMalformed() {
	n := vfLen("n", 0, 98)
	key := vfBytes("key", []int{32, 16, 0, 31}[vfChoose("keylen", 4)])
	in := vfBytes("in", n)
	if n > 16 && n%16 == 0 && len(key)%16 == 0 && len(key) > 0 {
		b, _ := aes.NewCipher(key)
		cipher.NewCBCEncrypter(b, in[:16]).CryptBlocks(in[16:], in[16:])
	}
	out, err := aesDecrypt(key, in)
	vfReach("returned")
	vfAssert(vfImplies(err == nil, len(out) <= n), "no more bytes than ciphertext")
	vfAssert(vfImplies(n%16 != 0, err != nil), "partial blocks are refused")
}

// Longer ones, around the ends of blocks.
func VC13_RootLong() {
	n := []int{159, 160, 161, 255, 256, 257, 319, 320, 1023, 1024, 1025, 4096}[vfChoose("n", 12)]
	key, pt := vfBytes("key", 32), vfBytes("pt", n)
	ct, err := aesEncrypt(key, pt)
	vfAssert(err == nil, "encrypting succeeds")
	out, err := aesDecrypt(key, ct)
	vfAssert(err == nil, "decrypting what was encrypted succeeds")
	vfAssert(vfEq(out, pt), "decryption returns exactly the original bytes")
	vfReach("round trip")
}
