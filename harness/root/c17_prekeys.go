package textsecure

//vf:use server

import (
	"encoding/base64"
	"encoding/json"
	"os"

	"github.com/signal-golang/textsecure/curve25519sign"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// C17: generated prekeys have distinct, valid ids and match what is published.

type vfPublished struct {
	IdentityKey string
	PreKeys     []struct {
		KeyID     uint32 `json:"keyId"`
		PublicKey string
	}
	LastResortKey struct {
		KeyID     uint32 `json:"keyId"`
		PublicKey string
	}
	SignedPreKey struct {
		KeyID                uint32 `json:"keyId"`
		PublicKey, Signature string
	}
}

func vfUnb64(s string) []byte {
	for len(s) > 0 && s[len(s)-1] == '=' {
		s = s[:len(s)-1]
	}
	b, err := base64.RawStdEncoding.DecodeString(s)
	if err != nil {
		panic("not base64: " + s)
	}
	return b
}

// A public key as it is published: a type byte and 32 bytes.
func vfSerial(k []byte) []byte {
	if len(k) == 32 {
		return append([]byte{5}, k...)
	}
	return k
}

var vfBreak func(s *store)

func vfPublish(n int) (*store, *vfPublished) { return vfPublishIn(vfTempDir(), n) }

func vfPublishIn(dir string, n int) (*store, *vfPublished) {
	preKeyBatchSize = n
	s, srv := vfClient(dir, func(r *vftransport.VfReq) vftransport.VfAnswer { return vftransport.VfAnswer{Status: 200} })
	if vfBreak != nil {
		vfBreak(s)
	}
	if generatePreKeys() != nil || generatePreKeyState() != nil || registerPreKeys() != nil {
		return s, nil
	}
	vfAssert(len(srv.Log) == 1, "the prekeys are published once")
	p := &vfPublished{}
	if err := json.Unmarshal(srv.Log[0].Body, p); err != nil {
		panic("published prekeys: " + err.Error())
	}
	return s, p
}

// Every id of a batch is distinct, valid and not the last-resort id, and the
// published key is the public half of the stored one: for random starting ids
// in windows at both ends and in the middle of the id space.
func VC17_Batch() {
	w := vfChoose("window", 3)
	vfDraws4(0x00fffff8, []uint32{0, 0x7ffff8, 0xfffff8}[w])
	n := 1 + vfChoose("batch", 2+vfTier())
	vfBatch(n)
}

func vfBatch(n int) {
	s, p := vfPublish(n)
	if p == nil {
		vfAssert(false, "a batch of prekeys is generated and published")
		return
	}
	vfAssert(len(p.PreKeys) == n, "all prekeys of the batch are published")
	vfAssert(p.LastResortKey.KeyID == lastResortPreKeyID, "the last-resort key has its own id")
	for i, k := range p.PreKeys {
		vfAssert(k.KeyID != lastResortPreKeyID, "a prekey does not take the last-resort id")
		vfAssert(vfAnd(k.KeyID != 0, k.KeyID <= 0xffffff), "a prekey id is a valid one")
		for _, o := range p.PreKeys[:i] {
			vfAssert(k.KeyID != o.KeyID, "the ids of a batch are distinct")
		}
	}
	for _, k := range append(p.PreKeys, p.LastResortKey) {
		r, err := s.LoadPreKey(k.KeyID)
		if err != nil {
			vfAssert(false, "a published prekey is stored")
			continue
		}
		vfAssert(r.Pkrs.Id == k.KeyID, "a prekey is stored under its id")
		vfAssert(vfEq(vfUnb64(k.PublicKey), vfSerial(r.Pkrs.PublicKey)), "the published key is the stored public key")
	}
	vfReach("published")
}

// The same for every random starting id.
//
//vf:thorough
func VC17_AnyStart() {
	vfBatch(1)
}

// The signed prekey is stored under the published id, and its signature by
// the published identity key covers its serialized public key.
//
//vf:fixedrand
func VC17_Signed() {
	s, p := vfPublish(1)
	if p == nil {
		vfAssert(false, "a batch of prekeys is generated and published")
		return
	}
	r, err := s.LoadSignedPreKey(p.SignedPreKey.KeyID)
	if err != nil {
		vfAssert(false, "the published signed prekey is stored")
		return
	}
	pub := vfUnb64(p.SignedPreKey.PublicKey)
	vfAssert(vfEq(pub, vfSerial(r.Spkrs.PublicKey)), "the published signed prekey is the stored public key")
	var ik [32]byte
	var sig [64]byte
	id := vfUnb64(p.IdentityKey)
	vfAssert(vfEq(id[1:], identityKey.PublicKey.Key()[:]), "the published identity key is the user's")
	copy(ik[:], id[1:])
	copy(sig[:], vfUnb64(p.SignedPreKey.Signature))
	vfAssert(curve25519sign.Verify(ik, pub, &sig), "the signature covers the signed prekey")
	vfReach("signed")
}

// Keys are published again, and the ids drawn are those of earlier keys: what
// is published is what is stored.
//
//vf:fixedrand
func VC17_Again() {
	vfDraws4(0x00ffffff, []uint32{0, 5, 0xfffffe, 0xffffff}[vfChoose("id", 4)])
	dir := vfTempDir()
	_, first := vfPublishIn(dir, 1)
	s, p := vfPublishIn(dir, 1+vfChoose("batch", 2))
	if p == nil || first == nil {
		vfAssert(false, "a batch of prekeys is generated and published")
		return
	}
	vfAssert(p.SignedPreKey.KeyID == first.SignedPreKey.KeyID && p.PreKeys[0].KeyID == first.PreKeys[0].KeyID, "set-up: the same ids")
	for _, k := range append(p.PreKeys, p.LastResortKey) {
		r, err := s.LoadPreKey(k.KeyID)
		vfAssert(err == nil && vfEq(vfUnb64(k.PublicKey), vfSerial(r.Pkrs.PublicKey)), "the published key is the stored public key")
	}
	r, err := s.LoadSignedPreKey(p.SignedPreKey.KeyID)
	vfAssert(err == nil && vfEq(vfUnb64(p.SignedPreKey.PublicKey), vfSerial(r.Spkrs.PublicKey)), "the published signed prekey is the stored public key")
	vfAssert(p.SignedPreKey.PublicKey != first.SignedPreKey.PublicKey, "and a new one")
	vfReach("again")
}

// When keys cannot be stored, nothing is published for which no key is
// stored.
//
//vf:fixedrand
func VC17_StoreFails() {
	dir := vfTempDir()
	vfBreak = func(s *store) {
		d := []string{s.preKeysDir, s.signedPreKeysDir}[vfChoose("broken", 2)]
		os.RemoveAll(d)
		os.WriteFile(d, []byte("not a directory"), 0600)
	}
	s, p := vfPublishIn(dir, 1)
	vfBreak = nil
	if p == nil {
		vfReach("refused")
		return
	}
	for _, k := range append(p.PreKeys, p.LastResortKey) {
		_, err := s.LoadPreKey(k.KeyID)
		vfAssert(err == nil, "a published prekey is stored")
	}
	_, err := s.LoadSignedPreKey(p.SignedPreKey.KeyID)
	vfAssert(err == nil, "the published signed prekey is stored")
}
