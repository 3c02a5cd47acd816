package textsecure

//vf:use server

import (
	"encoding/json"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/profiles"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// Whoever sends a request sees an error exactly when the answer is one:
// every status outside 200-299, even when its body looks like an answer.
//
//vf:fixedrand
func VC33_Callers() {
	status := vfInt("status", 100, 999)
	bad := vfChoose("body is no answer", 2) == 1
	var answer []byte
	s, srv := vfClient(vfTempDir(), func(r *vftransport.VfReq) vftransport.VfAnswer {
		return vftransport.VfAnswer{Status: status, Body: answer}
	})
	config.ConfigFile = &config.Config{UUID: vfPeer, Tel: "+491"}
	give := func(v interface{}) {
		answer, _ = json.Marshal(v)
		if bad {
			answer = []byte("<html>")
		}
	}
	var err error
	hasBody := true
	switch vfChoose("request", 11) {
	case 0:
		give(map[string]string{"uuid": vfPeer})
		_, err = GetMyUUID()
	case 1:
		give(map[string]string{"verificationCode": "123"})
		_, err = getNewDeviceVerificationCode()
	case 2:
		give(map[string][]DeviceInfo{"devices": {{ID: 1}}})
		_, err = getLinkedDevices()
	case 3:
		hasBody = false
		err = unlinkDevice(2)
	case 4:
		hasBody = false
		preKeyBatchSize = 1
		if generatePreKeys() != nil || loadPreKeys() != nil || generatePreKeyState() != nil {
			panic("no prekeys")
		}
		err = registerPreKeys()
	case 5:
		give(&preKeyResponse{IdentityKey: "x"})
		_, err = getPreKeys(vfPeer, "1")
	case 6:
		give(map[string]string{"key": "k"})
		_, err = getAttachmentV3UploadAttributes()
	case 7:
		hasBody = false
		err = addNewDevice("e", encodeKey(axolotl.NewECKeyPair().PublicKey.Key()[:]), "1")
	case 8:
		hasBody = false
		_, err = profiles.GetRemoteAvatar("/a")
	case 9:
		give(map[string]string{"username": "u"})
		_, err = vftransport.GetCredendtails("/c")
	case 10:
		give(map[string][]byte{"certificate": {1, 2}})
		_, err = vftransport.GetSenderCertificate()
	}
	vfAssert(len(srv.Log) == 1, "one request is sent")
	ok := vfAnd(status >= 200, status <= 299, vfOr(!hasBody, !bad))
	vfAssert((err == nil) == ok, "a request fails exactly when its answer is an error or none")
	vfReach("answered")
	_ = s
}
