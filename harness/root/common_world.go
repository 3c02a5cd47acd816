package textsecure

//vf:use peer

import (
	"encoding/json"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	vfwsignal "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// A vfArrived is a message as its recipient decrypted it.
type vfArrived struct {
	to      string
	content *vfwsignal.Content
	ts      uint64 // the time the envelope names
}

// A vfWorld is a server whose users have one device each; it keeps what they
// received and every object that was uploaded.
type vfWorld struct {
	dir    string
	devs   map[string]*vfPeerDevice
	got    []vfArrived
	puts   int
	copies bool   // the server asks for copies for the user's other devices
	fail   string // who cannot be reached
	files  map[string][]byte
	other  func(r *vftransport.VfReq) vftransport.VfAnswer
}

func vfNewWorld() *vfWorld {
	return &vfWorld{dir: vfTempDir(), devs: map[string]*vfPeerDevice{}, files: map[string][]byte{}}
}

func (w *vfWorld) device(who string) *vfPeerDevice {
	if w.devs[who] == nil {
		n := len(w.devs)
		w.devs[who] = vfNewDevice(filepath.Join(w.dir, "user"+strconv.Itoa(n)), 1, uint32(100+n), axolotl.GenerateIdentityKeyPair())
	}
	return w.devs[who]
}

func (w *vfWorld) answer(r *vftransport.VfReq) vftransport.VfAnswer {
	if d := vfKeysFor(r); d != 0 {
		who := r.URL[strings.Index(r.URL, "/v2/keys/")+len("/v2/keys/") : strings.LastIndex(r.URL, "/")]
		return vftransport.VfAnswer{Status: 200, Body: vfJSON(w.device(who).bundle())}
	}
	if i := strings.Index(r.URL, "/v1/messages/"); r.Method == "PUT" && i >= 0 {
		return w.deliver(r.URL[i+len("/v1/messages/"):], r.Body)
	}
	if strings.HasSuffix(r.URL, "/v3/attachments/form/upload") {
		return vftransport.VfAnswer{Status: 200, Body: []byte(`{"key":"obj` + strconv.Itoa(len(w.files)) + `","headers":{},"acl":"","signedUploadLocation":"https://cdn/start"}`)}
	}
	if w.other != nil {
		return w.other(r)
	}
	return vftransport.VfAnswer{Status: 404}
}

func (w *vfWorld) deliver(to string, body []byte) vftransport.VfAnswer {
	w.puts++
	vfPass(2) // messages take their time
	if to == w.fail {
		return vftransport.VfAnswer{Status: 500}
	}
	var m struct {
		Messages []struct {
			Type         int32  `json:"type"`
			DestDeviceID uint32 `json:"destinationDeviceId"`
			Content      string `json:"content"`
		} `json:"messages"`
		Destination string `json:"destination"`
		Timestamp   uint64 `json:"timestamp"`
	}
	if err := json.Unmarshal(body, &m); err != nil {
		panic("message: " + err.Error())
	}
	vfAssert(m.Destination == to, "the message names its recipient")
	for _, x := range m.Messages {
		b, err := w.device(to).read(vfSelfID, x.Type, x.Content)
		vfAssert(err == nil, "the recipient can decrypt its message")
		if err != nil {
			continue
		}
		for len(b) > 0 && b[len(b)-1] == 0 {
			b = b[:len(b)-1]
		}
		c := &vfwsignal.Content{}
		err = proto.Unmarshal(b[:len(b)-1], c)
		vfAssert(err == nil, "the recipient can read its message")
		w.got = append(w.got, vfArrived{to, c, m.Timestamp})
	}
	body = []byte(`{"needsSync":false}`)
	if w.copies && to != vfSelfID {
		body = []byte(`{"needsSync":true}`)
	}
	return vftransport.VfAnswer{Status: 200, Body: body}
}

const vfSelfID = "9d0652a3-dcc3-4d11-975f-74d61598733f"

// arrived is what one recipient received.
func (w *vfWorld) arrived(to string) []vfArrived {
	var l []vfArrived
	for _, a := range w.got {
		if a.to == to {
			l = append(l, a)
		}
	}
	return l
}
