package textsecure

//vf:use server

import (
	"encoding/base64"
	"encoding/json"
	"strconv"
	"strings"

	"github.com/signal-golang/textsecure/axolotl"
	vfpconfig "github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/curve25519sign"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// A vfPeerDevice is one device of a correspondent, with a store of its own.
type vfPeerDevice struct {
	dev     uint32
	regID   uint32
	id      *axolotl.IdentityKeyPair
	st      *store
	fetched int
	prekeys int
}

// vfNewDevice sets up a device: its store, one-time prekeys and a signed
// prekey.
func vfNewDevice(dir string, dev, regID uint32, id *axolotl.IdentityKeyPair) *vfPeerDevice {
	own := vfpconfig.ConfigFile
	d := &vfPeerDevice{dev: dev, regID: regID, id: id, st: vfOpen(dir, "")}
	vfpconfig.ConfigFile = own
	d.st.SetLocalRegistrationID(regID)
	if d.st.SetIdentityKeyPair(id) != nil {
		panic("peer device: identity not stored")
	}
	return d
}

type vfKeyJSON struct {
	KeyID     uint32 `json:"keyId"`
	PublicKey string `json:"publicKey"`
	Signature string `json:"signature,omitempty"`
}

type vfDeviceJSON struct {
	DeviceID       uint32     `json:"deviceId"`
	RegistrationID uint32     `json:"registrationId"`
	SignedPreKey   *vfKeyJSON `json:"signedPreKey"`
	PreKey         *vfKeyJSON `json:"preKey"`
}

type vfBundleJSON struct {
	IdentityKey string         `json:"identityKey"`
	Devices     []vfDeviceJSON `json:"devices"`
}

func vfB64(b []byte) string { return base64.RawStdEncoding.EncodeToString(b) }

// bundle publishes fresh prekeys of the device.
func (d *vfPeerDevice) bundle() *vfBundleJSON {
	d.prekeys++
	n := uint32(d.prekeys)
	pk, spk := axolotl.NewECKeyPair(), axolotl.NewECKeyPair()
	var random [64]byte
	randBytes(random[:])
	sig := curve25519sign.Sign(d.id.PrivateKey.Key(), spk.PublicKey.Serialize(), random)
	if d.st.StorePreKey(n, axolotl.NewPreKeyRecord(n, pk)) != nil ||
		d.st.StoreSignedPreKey(n, axolotl.NewSignedPreKeyRecord(n, 1, spk, sig[:])) != nil {
		panic("peer device: prekeys not stored")
	}
	return &vfBundleJSON{IdentityKey: vfB64(d.id.PublicKey.Serialize()), Devices: []vfDeviceJSON{{
		DeviceID: d.dev, RegistrationID: d.regID,
		SignedPreKey: &vfKeyJSON{KeyID: n, PublicKey: vfB64(spk.PublicKey.Serialize()), Signature: vfB64(sig[:])},
		PreKey:       &vfKeyJSON{KeyID: n, PublicKey: vfB64(pk.PublicKey.Serialize())},
	}}}
}

func vfJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err.Error())
	}
	return b
}

// read decrypts a message of type typ as the device would.
func (d *vfPeerDevice) read(from string, typ int32, content string) ([]byte, error) {
	b, err := base64.StdEncoding.DecodeString(content)
	if err != nil {
		return nil, err
	}
	sc := axolotl.NewSessionCipher(d.st, d.st, d.st, d.st, from, 1)
	if typ == 3 {
		m, err := axolotl.LoadPreKeyWhisperMessage(b)
		if err != nil {
			return nil, err
		}
		return sc.SessionDecryptPreKeyWhisperMessage(m)
	}
	m, err := axolotl.LoadWhisperMessage(b)
	if err != nil {
		return nil, err
	}
	return sc.SessionDecryptWhisperMessage(m)
}

// vfKeysFor: the device number a prekey request asks for (0: none).
func vfKeysFor(r *vftransport.VfReq) uint32 {
	i := strings.Index(r.URL, "/v2/keys/")
	if r.Method != "GET" || i < 0 {
		return 0
	}
	n, err := strconv.Atoi(r.URL[strings.LastIndex(r.URL, "/")+1:])
	if err != nil {
		return 0
	}
	return uint32(n)
}

// vfSignedBundle is the prekey bundle of the holder of id, without one-time
// prekey.
func vfSignedBundle(id *axolotl.IdentityKeyPair, n uint32, spk *axolotl.ECKeyPair) *axolotl.PreKeyBundle {
	var random [64]byte
	randBytes(random[:])
	sig := curve25519sign.Sign(id.PrivateKey.Key(), spk.PublicKey.Serialize(), random)
	b, err := axolotl.NewPreKeyBundle(5, 1, 0, nil, int32(n), &spk.PublicKey, sig[:], &id.PublicKey)
	if err != nil {
		panic("bundle: " + err.Error())
	}
	return b
}
