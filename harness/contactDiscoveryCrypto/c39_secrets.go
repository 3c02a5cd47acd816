package contactDiscoveryCrypto

import "github.com/signal-golang/textsecure/contactsDiscovery"

// C39: secrets come from the secure random source, whole.

func vfRequest() *DiscoveryRequest {
	r, err := CreateDiscoveryRequest([]string{"+15550001"}, map[string]*contactsDiscovery.RemoteAttestation{
		"e": {RequestId: []byte("request"), Keys: contactsDiscovery.RemoteAttestationKeys{ClientKey: make([]byte, 32), ServerKey: make([]byte, 32)}},
	})
	if err != nil {
		panic("no request")
	}
	return r
}

func VC39_Query() {
	vfAssert(vfFresh(func() []byte { return vfRequest().Iv }, nil), "the nonce of the query is random")
	vfAssert(vfFresh(func() []byte { return vfRequest().Envelopes["e"].Iv }, nil), "the nonce of an envelope is random")
	vfAssert(vfFresh(func() []byte {
		e := vfRequest().Envelopes["e"]
		k, err := aesDecrypt(make([]byte, 32), e.Iv, e.Data, e.Mac, e.RequestId)
		if err != nil {
			panic("envelope not readable")
		}
		return k
	}, nil), "the key of the query is random")
	vfAssert(vfFresh(func() []byte { return vfRequest().Commitment }, nil), "the commitment hides the contacts")
	vfReach("made")
}
