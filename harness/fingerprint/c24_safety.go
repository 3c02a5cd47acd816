package fingerprint

import "github.com/signal-golang/textsecure/axolotl"

// C24: safety numbers.

func vfSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vfAnd(ok, a[i] == b[i])
	}
	return ok
}

func vfIdents() (id1, id2 []byte, k1, k2 []axolotl.ECPublicKey) {
	id1 = vfBytes("id1", []int{0, 1, 12}[vfChoose("id1len", 2+vfTier())])
	id2 = vfBytes("id2", []int{0, 1, 12}[vfChoose("id2len", 2+vfTier())])
	k1 = []axolotl.ECPublicKey{*axolotl.NewECPublicKey(vfBytes("key1", 32))}
	k2 = []axolotl.ECPublicKey{*axolotl.NewECPublicKey(vfBytes("key2", 32))}
	return
}

// vfCode is the scannable code of CreateFingerprint, with three rounds of
// hashing instead of 5200 (VC24_AllRounds runs CreateFingerprint itself, and
// VC24_Halves decides the numbers for arbitrary halves).
func vfCode(id1 []byte, k1 []axolotl.ECPublicKey, id2 []byte, k2 []axolotl.ECPublicKey) ([]byte, error) {
	f1, f2 := getFingerprint(3, id1, k1), getFingerprint(3, id2, k2)
	return CreateQRFingerprint(1, f1, f2)
}

// The complete computation, on one pair of identities: both sides agree, and
// every input matters.
func VC24_AllRounds() {
	var a, b [32]byte
	for i := range a {
		a[i], b[i] = byte(i+1), byte(7*i+100)
	}
	sw := vfChoose("order", 2) == 1
	if sw {
		a, b = b, a
	}
	id1, id2 := []byte("+1"), []byte("+22")
	k1, k2 := []axolotl.ECPublicKey{*axolotl.NewECPublicKey(a[:])}, []axolotl.ECPublicKey{*axolotl.NewECPublicKey(b[:])}
	n1, q1, e1 := CreateFingerprint(1, id1, k1, id2, k2)
	n2, q2, e2 := CreateFingerprintSimple(1, "+22", append([]byte{5}, b[:]...), "+1", append([]byte{5}, a[:]...))
	vfAssert(e1 == nil && e2 == nil, "safety numbers are computed")
	vfAssert(len(n1) == 12 && vfSame(n1, n2), "both sides show the same safety number")
	c1, e1 := ScanQRFingerprint(q1)
	c2, e2 := ScanQRFingerprint(q2)
	vfAssert(e1 == nil && e2 == nil, "scannable codes can be scanned")
	vfAssert(vfEq(c1.LocalFingerprint.Content, c2.RemoteFingerprint.Content) && vfEq(c1.RemoteFingerprint.Content, c2.LocalFingerprint.Content), "with the halves swapped")
	_, q3, e3 := CreateFingerprint(1, id2, k1, id2, k2)
	c3, e4 := ScanQRFingerprint(q3)
	vfAssert(e3 == nil && e4 == nil, "scannable codes can be scanned")
	vfAssert(!vfEq(c1.LocalFingerprint.Content, c3.LocalFingerprint.Content), "another identifier gives another half")
	vfReach("compared")
}

// Each scannable code is the other one with
// the halves swapped.
func VC24_BothSides() {
	id1, id2, k1, k2 := vfIdents()
	if vfChoose("same", 2) == 1 {
		id2, k2 = id1, k1
	}
	qa, ea := vfCode(id1, k1, id2, k2)
	qb, eb := vfCode(id2, k2, id1, k1)
	vfAssert(ea == nil && eb == nil, "safety numbers are computed")
	ca, ea := ScanQRFingerprint(qa)
	cb, eb := ScanQRFingerprint(qb)
	vfAssert(ea == nil && eb == nil, "scannable codes can be scanned")
	vfAssert(vfEq(ca.LocalFingerprint.Content, cb.RemoteFingerprint.Content), "what one side calls local the other calls remote")
	vfAssert(vfEq(ca.RemoteFingerprint.Content, cb.LocalFingerprint.Content), "what one side calls remote the other calls local")
	vfAssert(*ca.Version == 1 && *cb.Version == 1, "the version is carried over")
	vfReach("compared")
}

// A different identity key or identifier gives a different half, so a
// comparison with another identity never matches.
func VC24_Distinct() {
	id1, id2, k1, k2 := vfIdents()
	q0, e0 := vfCode(id1, k1, id2, k2)
	l0 := append([]byte{}, id2...)
	raw := k2[0].Key()
	kb := append([]byte{}, raw[:]...)
	which := vfChoose("which", 2)
	if which == 0 {
		d := vfU8("d")
		vfAssume(d != 0)
		kb[[]int{0, 15, 31}[vfChoose("pos", 3)]] ^= d
	} else {
		l0 = append(l0, vfU8("more"))
	}
	q1, e1 := vfCode(id1, k1, l0, []axolotl.ECPublicKey{*axolotl.NewECPublicKey(kb)})
	vfAssert(e0 == nil && e1 == nil, "safety numbers are computed")
	c0, e0 := ScanQRFingerprint(q0)
	c1, e1 := ScanQRFingerprint(q1)
	vfAssert(e0 == nil && e1 == nil, "scannable codes can be scanned")
	vfAssert(vfEq(c0.LocalFingerprint.Content, c1.LocalFingerprint.Content), "the unchanged half stays the same")
	vfAssert(!vfEq(c0.RemoteFingerprint.Content, c1.RemoteFingerprint.Content), "a changed identity gives a different half")
	vfReach("compared")
}

// The order in which the keys of one side are listed does not matter.
func VC24_KeyOrder() {
	a, b := vfBytes("a", 32), vfBytes("b", 32)
	ka, kb := *axolotl.NewECPublicKey(a), *axolotl.NewECPublicKey(b)
	other := []axolotl.ECPublicKey{*axolotl.NewECPublicKey(vfBytes("other", 32))}
	id := vfBytes("id", 2)
	q1, e1 := vfCode(id, []axolotl.ECPublicKey{ka, kb}, id, other)
	q2, e2 := vfCode(id, []axolotl.ECPublicKey{kb, ka}, id, other)
	vfAssert(e1 == nil && e2 == nil, "safety numbers are computed")
	vfAssert(vfEq(q1, q2), "same code")
	vfReach("ordered")
}

// The blocks of any two halves are the same whichever half is named first.
func VC24_Halves() {
	x, y := vfBytes("x", 32), vfBytes("y", 32)
	switch vfChoose("alike", 4) {
	case 0:
		copy(y, x)
	case 1:
		copy(y[:5], x)
	case 2:
		copy(y[:25], x)
	}
	a := CreateFingerprintNumbers(append([]byte{}, x...), append([]byte{}, y...))
	b := CreateFingerprintNumbers(append([]byte{}, y...), append([]byte{}, x...))
	vfAssert(len(a) == 12, "there are twelve blocks")
	vfAssert(vfSame(a, b), "both orders give the same number")
	vfReach("compared")
}

// Each block is the five decimal digits of its 40-bit chunk modulo 100000.
func VC24_Blocks() {
	x := vfBytes("x", 32)
	a := CreateFingerprintNumbers(x, x)
	vfAssert(len(a) == 12, "there are twelve blocks")
	for i := 0; i < 6; i++ {
		s := a[i]
		vfAssert(len(s) == 5, "a block has five digits")
		v, dig := uint64(0), true
		for j := 0; j < 5; j++ {
			dig = vfAnd(dig, vfAnd(s[j] >= '0', s[j] <= '9'))
			v = v*10 + uint64(s[j]-'0')
		}
		c := uint64(0)
		for j := 0; j < 5; j++ {
			c = c<<8 | uint64(x[5*i+j])
		}
		vfAssert(dig, "a block has only digits")
		vfAssert(v == c%100000, "a block shows its chunk")
	}
	vfReach("blocks")
}

// Scanning any bytes, and keys of any length, never crashes.
func VC24_ScanAnything() {
	n := vfLen("n", 0, 6+2*vfTier())
	c, err := ScanQRFingerprint(vfBytes("qr", n))
	vfAssert(err != nil || c != nil, "either an error or a result")
	vfReach("scanned")
}

func VC24_OddKeys() {
	l := vfBytes("l", []int{33, 0, 1, 32, 34}[vfChoose("llen", 5)])
	r := vfBytes("r", []int{33, 0, 1, 32, 34}[vfChoose("rlen", 5)])
	n, q, err := CreateFingerprintSimple(1, "a", l, "b", r)
	vfAssert((err == nil) == (len(l) == 33 && len(r) == 33), "keys of the right length, and only those, have a safety number")
	vfAssert(err == nil || n == nil && q == nil, "an error comes without a number")
	vfReach("returned")
}
