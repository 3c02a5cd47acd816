package helpers

// C35: base64 without padding and hexadecimal UUIDs.

func VC35_Base64() {
	n := vfLen("n", 0, 9+24*vfTier())
	b := vfBytes("b", n)
	orig := append([]byte{}, b...)
	s := Base64EncWithoutPadding(b)
	pad := false
	for i := 0; i < len(s); i++ {
		pad = vfOr(pad, s[i] == '=')
	}
	vfAssert(!pad, "no padding")
	vfAssert(len(s) == (n*8+5)/6, "the usual length")
	out, err := Base64DecodeNonPadded(s)
	vfAssert(err == nil, "what was encoded can be decoded")
	vfAssert(len(out) == n && vfEq(out, orig), "and is the same")
	vfReach("round trip")
}

// Any text: an error, or bytes whose encoding is as long as the text.
func VC35_Base64Junk() {
	n := vfLen("n", 0, 4+vfTier())
	s := vfString("s", n)
	ok := true
	for i := 0; i < n; i++ {
		c := s[i]
		alnum := vfOr(vfOr(vfAnd(c >= 'a', c <= 'z'), vfAnd(c >= 'A', c <= 'Z')), vfAnd(c >= '0', c <= '9'))
		ok = vfAnd(ok, vfOr(alnum, vfOr(vfOr(c == '+', c == '/'), vfOr(c == '=', vfOr(c == '\r', c == '\n')))))
	}
	_, err := Base64DecodeNonPadded(s)
	vfAssert(vfImplies(!ok, err != nil), "foreign characters are refused")
	vfReach("decoded")
}

func vfHexVal(c byte) byte {
	return byte(vfIte64(c >= 'a', uint64(c-'a'+10), uint64(c-'0')))
}

// A 32-digit id becomes the UUID with the same digits in the same order.
func VC35_HexToUUID() {
	id := vfString("id", 32)
	u := HexToUUID(id)
	vfAssert(len(u) == 36, "a UUID has 36 characters")
	ok, j := true, 0
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			ok = vfAnd(ok, u[i] == '-')
			continue
		}
		ok = vfAnd(ok, u[i] == id[j])
		j++
	}
	vfAssert(ok, "same digits, dashes after 8, 12, 16 and 20")
	vfReach("uuid")
}

// Ids of other lengths never turn into something that looks like a UUID.
func VC35_HexToUUIDJunk() {
	n := []int{0, 1, 8, 15, 16, 31, 33, 36}[vfChoose("n", 8)]
	id := vfString("id", n)
	u := HexToUUID(id)
	vfAssert(n == 36 || len(u) != 36, "no UUID from an id of another length")
	vfReach("returned")
}
