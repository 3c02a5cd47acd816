package contactDiscoveryCrypto

//vf:use contactsDiscovery/enclave

import (
	"crypto/sha256"
	"encoding/json"

	"github.com/signal-golang/textsecure/contactsDiscovery"
)

// C27: contact discovery, its request and response.

// vfNumber is a phone number of n digits, and its value.
func vfNumber(name string, n int, plus bool) (string, uint64) {
	b := vfBytes(name, n)
	v := uint64(0)
	for i, c := range b {
		vfAssume(vfAnd(c >= '0', c <= '9'))
		if i == 0 {
			vfAssume(c != '0')
		}
		v = v*10 + uint64(c-'0')
	}
	s := string(b)
	if plus {
		s = "+" + s
	}
	return s, v
}

func vfAttested(name string, n int) (*contactsDiscovery.VfEnclave, *contactsDiscovery.RemoteAttestation) {
	e := &contactsDiscovery.VfEnclave{RequestID: vfBytes(name+"id", n), ClientKey: vfBytes(name+"ck", 32), ServerKey: vfBytes(name+"sk", 32)}
	return e, &contactsDiscovery.RemoteAttestation{RequestId: e.RequestID, Keys: contactsDiscovery.RemoteAttestationKeys{ClientKey: e.ClientKey, ServerKey: e.ServerKey}}
}

// vfWire is the request as the server gets it.
func vfWire(r *DiscoveryRequest) *contactsDiscovery.VfQuery {
	b, err := json.Marshal(*r)
	if err != nil {
		panic("request not encoded")
	}
	q := &contactsDiscovery.VfQuery{}
	if json.Unmarshal(b, q) != nil {
		panic("request not decoded")
	}
	return q
}

func vfBE(v uint64) []byte {
	return []byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// The numbers arrive as they were given, in order, whichever enclave reads them.
func VC27_Request() {
	k := vfChoose("numbers", 4)
	var book []string
	var want []byte
	for i := 0; i < k; i++ {
		s, v := vfNumber("nr", []int{2, 4, 3}[i], vfChoose("plus", 2) == 1)
		book = append(book, s)
		want = append(want, vfBE(v)...)
	}
	n := 1 + vfChoose("enclaves", 2)
	es := map[string]*contactsDiscovery.VfEnclave{}
	as := map[string]*contactsDiscovery.RemoteAttestation{}
	names := []string{"one", "two"}
	for i := 0; i < n; i++ {
		es[names[i]], as[names[i]] = vfAttested(names[i], []int{4, 0}[i])
	}
	r, err := CreateDiscoveryRequest(book, as)
	vfAssert(err == nil, "phone numbers can be asked for")
	q := vfWire(r)
	vfAssert(q.AddressCount == k, "the request tells how many numbers it has")
	vfAssert(len(q.Envelopes) == n, "every enclave has its envelope, and nobody else")
	for i := 0; i < n; i++ {
		query, ok := es[names[i]].Read(q, names[i])
		vfAssert(ok, "each enclave can read the query")
		vfAssert(len(query) == 32+8*k, "the query is a nonce and eight bytes for each number")
		vfAssert(vfEq(query[32:], want), "the numbers are those given, in order")
		h := sha256.Sum256(query)
		vfAssert(vfEq(q.Commitment, h[:]), "the commitment is to the query and its nonce")
	}
	vfReach("read")
}

// Long numbers, up to the largest that can be encoded.
func VC27_LongNumbers() {
	n := []int{8, 12, 15}[vfChoose("digits", 3)]
	b := make([]byte, n)
	v := uint64(0)
	at := vfChoose("at", 3) * (n - 1) / 2
	for i := range b {
		b[i] = byte('1' + i%9)
		if i == at {
			b[i] = vfU8("digit")
			vfAssume(vfAnd(b[i] >= '1', b[i] <= '9'))
		}
		v = v*10 + uint64(b[i]-'0')
	}
	e, a := vfAttested("one", 4)
	r, err := CreateDiscoveryRequest([]string{"+" + string(b)}, map[string]*contactsDiscovery.RemoteAttestation{"one": a})
	vfAssert(err == nil, "a phone number can be asked for")
	query, ok := e.Read(vfWire(r), "one")
	vfAssert(ok, "the enclave can read the query")
	vfAssert(vfEq(query[32:], vfBE(v)), "the number is the one given")
	vfReach("read")
}

// What is no phone number is refused, not asked for as another number.
func VC27_NoNumber() {
	good, _ := vfNumber("nr", 3, true)
	var bad string
	if k := vfChoose("bad", 11); k < 9 {
		bad = []string{"", "+", "-49", "+-49", "49 1", "99999999999999999999", "+9223372036854775808", "0x12", "1_0"}[k]
	} else {
		b := []byte("4917")
		b[[]int{0, 2}[k-9]] = vfU8("char")
		c := b[[]int{0, 2}[k-9]]
		vfAssume(vfOr(c < '0', c > '9'))
		if k == 9 {
			vfAssume(c != '+')
		}
		bad = string(b)
	}
	_, a := vfAttested("one", 4)
	book := []string{good, bad}
	if vfChoose("first", 2) == 1 {
		book = []string{bad, good}
	}
	r, err := CreateDiscoveryRequest(book, map[string]*contactsDiscovery.RemoteAttestation{"one": a})
	vfAssert(err != nil, "what is no phone number is refused")
	vfAssert(r == nil, "and nothing is asked for")
	vfReach("refused")
}

// Nobody without the enclave's key reads the query, and nothing of it is in
// the open.
func VC27_Secret() {
	e, a := vfAttested("one", 4)
	o, b := vfAttested("two", 4)
	vfAssume(!vfEq(e.ClientKey, o.ClientKey))
	vfAssume(!vfEq(e.RequestID, o.RequestID))
	as := map[string]*contactsDiscovery.RemoteAttestation{"one": a, "two": b}
	s, _ := vfNumber("nr", 3, false)
	r, err := CreateDiscoveryRequest([]string{s}, as)
	vfAssert(err == nil, "phone numbers can be asked for")
	q := vfWire(r)
	_, ok := (&contactsDiscovery.VfEnclave{RequestID: e.RequestID, ClientKey: o.ClientKey}).Read(q, "one")
	vfAssert(!ok, "an envelope opens with the key of its enclave only")
	_, ok = contactsDiscovery.VfOpen(e.ClientKey, q.Envelopes["one"].Iv, q.Envelopes["one"].Data, q.Envelopes["one"].Mac, o.RequestID)
	vfAssert(!ok, "an envelope belongs to its request")
	vfReach("kept")
}

// The answer of the enclave that was asked, and no other, is read.
func VC27_Response() {
	e, a := vfAttested("one", 4)
	o, b := vfAttested("two", 3)
	as := map[string]*contactsDiscovery.RemoteAttestation{"one": a, "two": b}
	data := vfBytes("data", 16*vfChoose("n", 3))
	iv := vfBytes("iv", 12)
	by := []*contactsDiscovery.VfEnclave{e, o}[vfChoose("by", 2)]
	c := contactsDiscovery.VfSeal(by.ServerKey, iv, data, nil)
	resp := DiscoveryResponse{RequestId: by.RequestID, Iv: iv, Data: c[:len(data)], Mac: c[len(data):]}
	got, err := GetDiscoveryResponseData(resp, as)
	vfAssert(err == nil, "the answer of an enclave is read")
	vfAssert(vfEq(got, data), "as the enclave sent it")
	vfReach("read")
}

// Any other answer gives an error.
func VC27_BadResponse() {
	e, a := vfAttested("one", 4)
	as := map[string]*contactsDiscovery.RemoteAttestation{"one": a}
	data, iv := vfBytes("data", 16), vfBytes("iv", 12)
	kind := vfChoose("kind", 9)
	if kind == 4 {
		// Cut codes: with a fixed key and text the real cipher decides.
		e.ServerKey, data, iv = make([]byte, 32), []byte("sixteen bytes ok"), make([]byte, 12)
		a.Keys.ServerKey = e.ServerKey
	}
	c := contactsDiscovery.VfSeal(e.ServerKey, iv, data, nil)
	r := DiscoveryResponse{RequestId: e.RequestID, Iv: iv, Data: append([]byte{}, c[:16]...), Mac: append([]byte{}, c[16:]...)}
	m := vfU8("mask")
	vfAssume(m != 0)
	switch kind {
	case 0:
		r.Data[vfChoose("at", 16)] ^= m
	case 1:
		r.Mac[vfChoose("at", 16)] ^= m
	case 2:
		r.Iv = append([]byte{}, iv...)
		r.Iv[vfChoose("at", 12)] ^= m
	case 3:
		r.Iv = make([]byte, []int{0, 1, 11, 13, 16}[vfChoose("n", 5)])
	case 4:
		r.Mac = r.Mac[:[]int{0, 1, 15}[vfChoose("n", 3)]]
	case 5:
		r.Data, r.Mac = nil, nil
	case 6:
		r.Data = r.Data[:vfChoose("n", 16)]
	case 7:
		r.RequestId = append([]byte{}, r.RequestId...)
		r.RequestId[vfChoose("at", 4)] ^= m
	case 8:
		r = DiscoveryResponse{}
	}
	got, err := GetDiscoveryResponseData(r, as)
	vfAssert(err != nil, "a bad answer gives an error")
	vfAssert(len(got) == 0, "and no data")
	vfReach("refused")
}
