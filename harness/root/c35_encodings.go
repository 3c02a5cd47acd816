package textsecure

import (
	"encoding/binary"

	"github.com/signal-golang/textsecure/helpers"
)

// C35: encodings of the root package.

func VC35_PreKeyFilename() {
	id := vfU32("id")
	f := idToFilename(id)
	vfAssert(len(f) >= 9, "file names have at least nine digits")
	got, err := filenameToID(f)
	vfAssert(err == nil, "a prekey's file name can be read back")
	vfAssert(got == id, "and gives the prekey's id")
	vfReach("round trip")
}

// Names that no prekey has give an error, not the id of some prekey.
func VC35_FilenameJunk() {
	base := []string{"000000005", "", "00000000", "00000", "4294967295"}[vfChoose("base", 5)]
	name := vfString("pre", vfChoose("pre", 2)) + base + vfString("suf", vfChoose("suf", 3))
	id, err := filenameToID(name)
	if err == nil {
		vfAssert(idToFilename(id) == name, "only the names of prekeys are read as prekeys")
	}
	vfReach("read")
}

func VC35_Varint() {
	v := vfU32("len")
	b := varint32(int(v))
	got, n := binary.Uvarint(append([]byte{}, b...))
	vfAssert(n == len(b) && n > 0, "a complete length prefix")
	vfAssert(got == uint64(v), "the length that was written")
	vfReach("round trip")
}

func vfIsHex(c byte) bool {
	return vfOr(vfAnd(c >= '0', c <= '9'), vfOr(vfAnd(c >= 'a', c <= 'f'), vfAnd(c >= 'A', c <= 'F')))
}

// Exactly the version-4 UUIDs are accepted.
func VC35_ValidUUID() {
	n := []int{36, 35, 37}[vfChoose("n", 3)]
	s := []byte("0a1B2c3d-4e5f-4a6b-8c7d-9e0f1a2b3c4d")
	for len(s) < n {
		s = append(s, '0')
	}
	s = s[:n]
	// Two positions at a time are arbitrary.
	i, j := vfChoose("i", 36), []int{8, 14, 19, 35}[vfChoose("j", 2+2*vfTier())]
	if i < n {
		s[i] = vfU8("ci")
	}
	if j < n && j != i {
		s[j] = vfU8("cj")
	}
	ok := n == 36
	for k, c := range s {
		switch {
		case k == 8 || k == 13 || k == 18 || k == 23:
			ok = vfAnd(ok, c == '-')
		case k == 14:
			ok = vfAnd(ok, c == '4')
		case k == 19:
			ok = vfAnd(ok, vfOr(vfOr(c == '8', c == '9'), vfOr(vfOr(c == 'a', c == 'A'), vfOr(c == 'b', c == 'B'))))
		default:
			ok = vfAnd(ok, vfIsHex(c))
		}
	}
	vfAssert(isValidUUID(string(s)) == ok, "accepted exactly when it is a version-4 UUID")
	vfReach("checked")
}

func VC35_IDToUUID() {
	b := vfBytes("b", 16)
	u := idToHexUUID(append([]byte{}, b...))
	vfAssert(len(u) == 36, "a UUID has 36 characters")
	val := func(c byte) byte { return byte(vfIte64(c >= 'a', uint64(c-'a'+10), uint64(c-'0'))) }
	ok, j := true, 0
	for i := 0; i < 36; {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			ok = vfAnd(ok, u[i] == '-')
			i++
			continue
		}
		ok = vfAnd(ok, vfAnd(vfIsHex(u[i]), vfIsHex(u[i+1])))
		ok = vfAnd(ok, val(u[i])<<4|val(u[i+1]) == b[j])
		i += 2
		j++
	}
	vfAssert(ok, "the UUID shows the id's bytes in order")
	vfReach("uuid")
}

func VC35_IDToUUIDJunk() {
	n := []int{0, 1, 7, 8, 9, 15, 17, 20}[vfChoose("n", 8)]
	u := idToHexUUID(vfBytes("b", n))
	vfAssert(!isValidUUID(u) && len(u) != 36, "no UUID from bytes of another length")
	vfReach("returned")
}

func VC35_HexID() {
	n := vfLen("n", 0, 16)
	b := vfBytes("b", n)
	h := idToHex(b)
	vfAssert(len(h) == 2*n, "two digits a byte")
	val := func(c byte) byte { return byte(vfIte64(c >= 'a', uint64(c-'a'+10), uint64(c-'0'))) }
	ok := true
	for i := range b {
		ok = vfAnd(ok, val(h[2*i])<<4|val(h[2*i+1]) == b[i])
	}
	vfAssert(ok, "the id's bytes in order")
	vfReach("hex")
}

// vfRaw is n bytes, the first, one in the middle and the last of any value.
func vfRaw(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(7*i + 3)
	}
	if n > 2 {
		b[0], b[n/2], b[n-1] = vfU8("first"), vfU8("middle"), vfU8("last")
	}
	return b
}

// Public keys and signatures are read as they were written; a text of any
// other length, or of another kind of key, is neither.
func VC35_Key() {
	key := vfRaw(32)
	got, err := decodeKey(encodeKey(key))
	vfAssert(err == nil && vfEq(got, key), "a public key is read as it was written")
	n := []int{0, 1, 2, 31, 32, 33, 34, 35, 36, 63, 64, 65, 66, 67, 96}[vfChoose("length", 15)]
	b := vfRaw(n)
	text := helpers.Base64EncWithoutPadding(b)
	got, err = decodeKey(text)
	if n == 33 {
		vfAssert((err == nil) == (b[0] == 5), "keys of this kind, and no others, are read")
		if err == nil {
			vfAssert(vfEq(got, b[1:]), "as they were written")
		}
	} else {
		vfAssert(err != nil, "a key of another length is none")
	}
	got, err = decodeSignature(text)
	vfAssert((err == nil) == (n == 64), "signatures have 64 bytes")
	if err == nil {
		vfAssert(vfEq(got, b), "a signature is read as it was written")
	}
	vfReach("read")
}
