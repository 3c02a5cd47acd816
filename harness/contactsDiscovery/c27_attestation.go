package contactsDiscovery

//vf:use enclave
//vf:use transport/fake

import (
	"encoding/json"
	"errors"

	vftransport "github.com/signal-golang/textsecure/transport"
)

// C27: contact discovery, its attestation.

// vfAttest asks for attestations; answer makes the server's from the client's key.
func vfAttest(answer func(pub []byte) vftransport.VfAnswer) (map[string]*RemoteAttestation, *RemoteAttestation, error) {
	n := 0
	vftransport.VfFake(&vftransport.VfServer{Answer: func(r *vftransport.VfReq) vftransport.VfAnswer {
		n++
		vfAssert(r.Method == "PUT", "attestations are asked for with PUT")
		vfAssert(r.URL == "https://directory/v1/attestation/enclave", "the enclave's attestation is asked for")
		vfAssert(r.Header.Get("Authorization") == "Basic me", "with the credentials given")
		pub := VfClientPublic(r.Body)
		vfAssert(len(pub) == 32, "the request has the client's public key")
		return answer(pub)
	}})
	ra := &RemoteAttestation{}
	m, err := ra.GetAndVerifyMultiRemoteAttestation("enclave", "Basic me")
	vfAssert(n == 1, "one request is made")
	return m, ra, err
}

func vfEnclaveOf(tag string, n int) *VfEnclave {
	return VfNewEnclave(vfBytes(tag+"eph", 32), vfBytes(tag+"sta", 32), vfBytes(tag+"id", n))
}

// Every enclave negotiates its own keys with the client.
func VC27_Attestation() {
	n := 1 + vfChoose("enclaves", 3)
	names := []string{"one", "two", "three"}
	es := []*VfEnclave{}
	for i := 0; i < n; i++ {
		es = append(es, vfEnclaveOf(names[i], []int{36, 0, 5}[i]))
	}
	got, ra, err := vfAttest(func(pub []byte) vftransport.VfAnswer {
		m := map[string]*RemoteAttestationResponse{}
		for i, e := range es {
			m[names[i]] = e.Attest(pub)
		}
		return vftransport.VfAnswer{Status: 200, Body: VfAttestations(m), Header: map[string]string{"Set-Cookie": "a=b"}}
	})
	vfAssert(err == nil, "genuine attestations are accepted")
	vfAssert(len(got) == n, "all of them")
	vfAssert(ra.Cookies != "", "the cookies for the query are kept")
	for i, e := range es {
		a := got[names[i]]
		vfAssert(a != nil, "each under its name")
		vfAssert(vfEq(a.Keys.ClientKey, e.ClientKey), "the client key is the one agreed on with that enclave")
		vfAssert(vfEq(a.Keys.ServerKey, e.ServerKey), "the server key is the one agreed on with that enclave")
		vfAssert(vfEq(a.RequestId, e.RequestID), "the request id is the one the enclave sent")
	}
	vfReach("attested")
}

// Answers that are altered or malformed give an error, and no keys.
//
//vf:fixedrand
func VC27_BadAttestation() {
	e := vfEnclaveOf("e", 4)
	kind := vfChoose("kind", 14)
	if kind == 6 {
		// Cut codes: with fixed keys and text the real cipher decides.
		e = VfNewEnclave([]byte("eph"), []byte("sta"), []byte("id 1"))
	}
	got, _, err := vfAttest(func(pub []byte) vftransport.VfAnswer {
		r := e.Attest(pub)
		switch kind {
		case 0:
			r.ServerEphemeralPublic = r.ServerEphemeralPublic[:[]int{0, 31}[vfChoose("n", 2)]]
		case 1:
			r.ServerStaticPublic = append(r.ServerStaticPublic, make([]byte, 1+vfChoose("n", 2))...)
		case 2:
			r.ServerStaticPublic = r.ServerStaticPublic[:[]int{0, 31}[vfChoose("n", 2)]]
		case 3:
			r.ServerEphemeralPublic = append(r.ServerEphemeralPublic, make([]byte, 1+vfChoose("n", 2))...)
		case 4:
			r.Iv = r.Iv[:[]int{0, 11}[vfChoose("n", 2)]]
		case 5:
			r.Iv = append(append([]byte{}, r.Iv...), make([]byte, []int{1, 4}[vfChoose("n", 2)])...)
		case 6:
			r.Tag = r.Tag[:[]int{0, 15}[vfChoose("n", 2)]]
		case 7:
			r.Ciphertext = append([]byte{}, r.Ciphertext...)
			m := vfU8("mask")
			vfAssume(m != 0)
			r.Ciphertext[vfChoose("at", 4)] ^= m
		case 8:
			r.Tag = append([]byte{}, r.Tag...)
			m := vfU8("mask")
			vfAssume(m != 0)
			r.Tag[[]int{0, 7, 15}[vfChoose("at", 3)]] ^= m
		case 9:
			r.Ciphertext = nil
			r.Tag = nil
		case 10:
			r = nil
		case 11:
			// the keys of another enclave
			o := vfEnclaveOf("o", 4)
			vfAssume(!vfEq(o.StaPub[:], e.StaPub[:]))
			r.ServerStaticPublic = append([]byte{}, o.StaPub[:]...)
		case 12:
			r = &RemoteAttestationResponse{}
		case 13:
			// the answer to another client
			pub = append([]byte{}, pub...)
			pub[0] ^= 1
			r = e.Attest(pub)
		}
		return vftransport.VfAnswer{Status: 200, Body: VfAttestations(map[string]*RemoteAttestationResponse{"one": r})}
	})
	vfAssert(err != nil, "a bad attestation gives an error")
	vfAssert(len(got) == 0, "no keys come out of it")
	vfReach("refused")
}

// One bad attestation among good ones is not used.
func VC27_OneBad() {
	a, b := vfEnclaveOf("a", 4), vfEnclaveOf("b", 4)
	got, _, err := vfAttest(func(pub []byte) vftransport.VfAnswer {
		ra, rb := a.Attest(pub), b.Attest(pub)
		switch vfChoose("bad", 3) {
		case 0:
			rb = nil
		case 1:
			rb.Tag = make([]byte, 3)
		case 2:
			rb.ServerStaticPublic = nil
		}
		return vftransport.VfAnswer{Status: 200, Body: VfAttestations(map[string]*RemoteAttestationResponse{"one": ra, "two": rb})}
	})
	vfAssert(got["two"] == nil, "a bad attestation is not used")
	if err == nil {
		vfAssert(got["one"] != nil, "the good one is")
		vfAssert(vfEq(got["one"].Keys.ClientKey, a.ClientKey), "with its keys")
	}
	vfReach("left out")
}

// Other answers of the server, and none.
func VC27_AttestationAnswers() {
	bodies := []string{"", "null", "{}", "[]", "5", `""`, `{"attestations":null}`, `{"attestations":[]}`, `{"attestations":{}}`,
		`{"attestations":{"a":null}}`, `{"attestations":{"a":{}}}`, `{"attestations":{"a":{"iv":"!"}}}`, `{"attestations":{"a":{"iv":5}}}`,
		`{"attestations":{"a":{},"b":{},"c":{},"d":{}}}`, `{"attestations`}
	k := vfChoose("body", len(bodies)+2)
	got, _, err := vfAttest(func(pub []byte) vftransport.VfAnswer {
		switch k {
		case len(bodies):
			return vftransport.VfAnswer{Err: errors.New("lost")}
		case len(bodies) + 1:
			st := int(vfU16("status"))
			vfAssume(vfAnd(st >= 100, st < 600, vfOr(st < 200, st >= 300)))
			e := vfEnclaveOf("e", 4)
			return vftransport.VfAnswer{Status: st, Body: VfAttestations(map[string]*RemoteAttestationResponse{"one": e.Attest(pub)})}
		}
		return vftransport.VfAnswer{Status: 200, Body: []byte(bodies[k])}
	})
	vfAssert(err != nil, "an answer without good attestations gives an error")
	vfAssert(len(got) == 0, "and no keys")
	vfReach("refused")
}

// Names of the fields of the answer are those of the protocol.
func VC27_AttestationNames() {
	e := vfEnclaveOf("e", 4)
	got, _, err := vfAttest(func(pub []byte) vftransport.VfAnswer {
		r := e.Attest(pub)
		b, err := json.Marshal(map[string]interface{}{"attestations": map[string]interface{}{"x": map[string]interface{}{
			"serverEphemeralPublic": r.ServerEphemeralPublic, "serverStaticPublic": r.ServerStaticPublic,
			"iv": r.Iv, "ciphertext": r.Ciphertext, "tag": r.Tag, "quote": "", "signature": "s", "certificates": "c", "signatureBody": "b"}}})
		if err != nil {
			panic("answer not encoded")
		}
		return vftransport.VfAnswer{Status: 200, Body: b}
	})
	vfAssert(err == nil, "a genuine attestation is accepted")
	vfAssert(got["x"] != nil, "under its name")
	vfAssert(vfEq(got["x"].RequestId, e.RequestID), "with its request id")
	vfReach("read")
}
