package textsecure

// C23: message padding.

var vfPadLens = []int{0, 1, 2, 7, 158, 159, 160, 161, 162, 319, 320, 321, 480, 481, 640, 800, 1599, 1600, 1601}

// Every content of the chosen length survives padding and stripping, the
// padded length is that of the start of the length's 160-byte step, and the
// caller's bytes are left alone.
func VC23_RoundTrip() {
	n := vfPadLens[vfChoose("len", 12+7*vfTier())]
	m := vfBytes("m", n)
	orig := append([]byte{}, m...)
	p := padMessage(m)
	vfAssert(vfEq(m, orig), "padding does not change the content it was given")
	vfAssert(len(p) > n && len(p) <= n+160 && len(p)%160 == 0, "padded lengths are multiples of 160 above the content's length")
	vfAssert(len(p) == len(padMessage(make([]byte, n-n%160))), "all lengths of one step are padded to the same length")
	vfAssert(vfEq(p[:n], orig), "the padded message starts with the content")
	out := stripPadding(p)
	vfAssert(len(out) == n && vfEq(out, orig), "stripping the padding returns exactly the content")
	vfReach("round trip")
}

// The same for long contents, with any byte at the ends and in the middle.
func VC23_Long() {
	n := []int{2047, 4096, 65535, 65536, 65537, 100000}[vfChoose("len", 6)]
	m := make([]byte, n)
	for i := range m {
		m[i] = byte(i>>8) ^ byte(i)
	}
	m[0], m[n/2], m[n-1] = vfU8("first"), vfU8("middle"), vfU8("last")
	p := padMessage(m)
	vfAssert(len(p) > n && len(p) <= n+160 && len(p)%160 == 0, "padded lengths are multiples of 160 above the content's length")
	out := stripPadding(p)
	vfAssert(len(out) == n, "stripping the padding returns the whole content")
	vfAssert(vfEq(out[n/2-8:n/2+8], m[n/2-8:n/2+8]) && vfEq(out[:16], m[:16]) && vfEq(out[n-300:], m[n-300:]), "stripping the padding returns exactly the content")
	vfReach("round trip")
}

// Spare capacity behind the content (a sub-slice of a larger buffer) is not
// part of the content, and is not written to.
func VC23_SharedBuffer() {
	n := []int{0, 1, 159, 160, 161}[vfChoose("len", 5)]
	buf := vfBytes("buf", n+vfLen("spare", 0, 3))
	whole := append([]byte{}, buf...)
	p := padMessage(buf[:n])
	vfAssert(vfEq(buf, whole), "bytes after the content are not touched")
	out := stripPadding(p)
	vfAssert(len(out) == n && vfEq(out, whole[:n]), "stripping the padding returns exactly the content")
	vfReach("shared")
}

// Any byte string can be stripped: the result is a prefix of it.
func VC23_StripAnything() {
	n := vfLen("len", 0, 20+12*vfTier())
	m := vfBytes("m", n)
	out := stripPadding(append([]byte{}, m...))
	vfAssert(len(out) <= n, "never longer than the input")
	vfAssert(vfEq(out, m[:len(out)]), "a prefix of the input")
	vfReach("stripped")
}
