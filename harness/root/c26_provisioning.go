package textsecure

//vf:use server
//vf:use provision

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// C26: provisioning messages. The harness is the new device, which reads them
// by the published rules: X25519, HKDF-SHA256 with 64 bytes, version 1,
// AES-256-CBC, HMAC-SHA256 over version and ciphertext.

func vfText(name string) *string {
	s := vfString(name, []int{0, 1, 5, 12, 36}[vfChoose(name+" length", 5)])
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vfAnd(ok, vfAnd(s[i] >= ' ', s[i] < 127))
	}
	vfAssume(ok)
	return &s
}

// Any account data arrives exactly, for any lengths around the cipher's blocks.
func VC26_Cipher() {
	newDevice := axolotl.GenerateIdentityKeyPair()
	pm := &signalservice.ProvisionMessage{
		AciIdentityKeyPublic:  vfBytes("public key", 33),
		AciIdentityKeyPrivate: vfBytes("private key", 32),
		Aci:                   vfText("account"),
		ProvisioningCode:      vfText("code"),
		Number:                vfText("number"),
	}
	if vfChoose("more", 2) == 1 {
		yes, v, agent := vfBool("receipts"), vfU32("version"), "agent"
		vfAssume(v < 128)
		pm.ReadReceipts, pm.ProvisioningVersion, pm.UserAgent, pm.ProfileKey = &yes, &v, &agent, vfBytes("profile key", 32)
	}
	want, _ := proto.Marshal(pm)
	env, err := provisioningCipher(pm, axolotl.NewECPublicKey(newDevice.PublicKey.Key()[:]))
	vfAssert(err == nil, "a provisioning message is made")
	again, _ := proto.Marshal(pm)
	vfAssert(vfEq(want, again), "the data is left as it was")
	got, ok := vfProvisioned(newDevice.PrivateKey.Key(), env)
	vfAssert(ok, "the new device can read its message")
	vfAssert(got.Aci != nil && got.ProvisioningCode != nil && got.Number != nil, "all data arrives")
	vfAssert(vfAnd(vfAnd(vfEq(got.AciIdentityKeyPublic, pm.AciIdentityKeyPublic), vfEq(got.AciIdentityKeyPrivate, pm.AciIdentityKeyPrivate)),
		vfAnd(*got.Aci == *pm.Aci, vfAnd(*got.ProvisioningCode == *pm.ProvisioningCode, *got.Number == *pm.Number))), "the data arrives as it was put in")
	vfAssert((got.ReadReceipts == nil) == (pm.ReadReceipts == nil), "nothing is added")
	if pm.ReadReceipts != nil && got.ReadReceipts != nil {
		vfAssert(vfAnd(*got.ReadReceipts == *pm.ReadReceipts, vfAnd(got.GetProvisioningVersion() == *pm.ProvisioningVersion, vfEq(got.ProfileKey, pm.ProfileKey))), "the further data arrives as it was put in")
	}
	_, ok = vfProvisioned(axolotl.GenerateIdentityKeyPair().PrivateKey.Key(), env)
	vfAssert(!ok, "nobody else can read it")
	vfReach("read")
}

// Every message has a key and an IV of its own, and shows no byte of the data.
func VC26_Fresh() {
	newDevice := axolotl.GenerateIdentityKeyPair()
	code, id := "123-456", "account"
	pm := &signalservice.ProvisionMessage{AciIdentityKeyPublic: make([]byte, 33), AciIdentityKeyPrivate: make([]byte, 32), Aci: &id, ProvisioningCode: &code, Number: &id}
	parts := func() *signalservice.ProvisionEnvelope {
		env, err := provisioningCipher(pm, axolotl.NewECPublicKey(newDevice.PublicKey.Key()[:]))
		pe := &signalservice.ProvisionEnvelope{}
		if err != nil || proto.Unmarshal(env, pe) != nil || len(pe.PublicKey) != 33 || len(pe.Body) < 65 {
			panic("no message")
		}
		return pe
	}
	vfAssert(vfFresh(func() []byte { return parts().PublicKey[1:] }, append(make([]byte, 31), 0x80)), "the key agreement is fresh")
	vfAssert(vfFresh(func() []byte { return parts().Body[1:17] }, nil), "the IV is fresh")
	a, b := parts(), parts()
	vfAssert(vfCanDiffer(a.Body[len(a.Body)-32:], b.Body[len(b.Body)-32:]), "so is the rest")
	vfReach("fresh")
}

// What is sent for a linked device goes to its address and holds this
// account's data; failures are reported.
//
//vf:fixedrand
func VC26_Link() {
	var sent []*vftransport.VfReq
	status := vfInt("status", 200, 599)
	codeStatus := 200
	fail := vfChoose("fails", 3)
	if fail == 1 {
		codeStatus = vfInt("code status", 400, 599)
	}
	if fail != 2 {
		vfAssume(status < 300)
	} else {
		vfAssume(status >= 400)
	}
	vfClient(vfTempDir(), func(r *vftransport.VfReq) vftransport.VfAnswer {
		if strings.Contains(r.URL, "provisioning/code") {
			return vftransport.VfAnswer{Status: codeStatus, Body: []byte(`{"verificationCode":"135-790"}`)}
		}
		sent = append(sent, r)
		return vftransport.VfAnswer{Status: status}
	})
	config.ConfigFile = &config.Config{UUID: vfPeer, Tel: "+4912345"}
	code2 = ""
	newDevice := axolotl.GenerateIdentityKeyPair()
	key := newDevice.PublicKey.Serialize()
	enc := base64.StdEncoding.EncodeToString(key)
	if vfChoose("padded", 2) == 0 {
		enc = strings.TrimRight(enc, "=")
	}
	err := AddNewLinkedDevice("b2c3-address", enc)
	if fail == 1 {
		vfAssert(err != nil && len(sent) == 0, "without a code nothing is sent")
		vfReach("no code")
		return
	}
	vfAssert(len(sent) == 1, "one message is sent")
	vfAssert((err == nil) == (fail != 2), "it is reported whether the message was taken")
	vfAssert(sent[0].Method == "PUT" && strings.HasSuffix(sent[0].URL, "/v1/provisioning/b2c3-address"), "it goes to the new device's address")
	var body struct{ Body string }
	vfAssert(json.Unmarshal(sent[0].Body, &body) == nil, "it is JSON")
	env, err := base64.StdEncoding.DecodeString(body.Body)
	vfAssert(err == nil, "with the message in base 64")
	pm, ok := vfProvisioned(newDevice.PrivateKey.Key(), env)
	vfAssert(ok, "the new device can read it")
	vfAssert(bytes.Equal(pm.AciIdentityKeyPublic, identityKey.PublicKey.Serialize()) && bytes.Equal(pm.AciIdentityKeyPrivate, identityKey.PrivateKey.Key()[:]), "it holds this account's identity")
	vfAssert(pm.GetAci() == vfPeer && pm.GetNumber() == "+4912345" && pm.GetProvisioningCode() == "135-790", "and its account data and the code")
	vfReach("linked")
}

// Keys that are none are refused before anything is sent.
//
//vf:fixedrand
func VC26_BadKey() {
	n := 0
	vfClient(vfTempDir(), func(r *vftransport.VfReq) vftransport.VfAnswer {
		if strings.Contains(r.URL, "provisioning/code") {
			return vftransport.VfAnswer{Body: []byte(`{"verificationCode":"135-790"}`)}
		}
		n++
		return vftransport.VfAnswer{}
	})
	code2 = ""
	key := append([]byte{5}, make([]byte, 33)...)
	key[7] = 9
	l := []int{0, 1, 32, 33, 34}[vfChoose("length", 5)]
	key = key[:l]
	t := byte(5)
	if l > 0 {
		t = vfU8("type")
		key[0] = t
	}
	if l == 33 {
		vfAssume(t != 5)
	}
	err := addNewDevice("address", base64.StdEncoding.EncodeToString(key), "1")
	vfAssert(err != nil && n == 0, "what is no public key is refused")
	vfAssert(addNewDevice("address", "*"+base64.StdEncoding.EncodeToString(key), "1") != nil && n == 0, "and what is no base 64")
	vfReach("refused")
}
