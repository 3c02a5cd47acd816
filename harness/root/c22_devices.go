package textsecure

//vf:use peer

import (
	"encoding/base64"
	"encoding/json"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// C22: outgoing messages reach exactly the recipient's devices.

const vfMe = "9d0652a3-dcc3-4d11-975f-74d61598733f"

type vfSent struct {
	Messages []struct {
		Type               int32  `json:"type"`
		DestDeviceID       uint32 `json:"destinationDeviceId"`
		DestRegistrationID uint32 `json:"destinationRegistrationId"`
		Content            string `json:"content"`
	} `json:"messages"`
	Destination string `json:"destination"`
	Timestamp   uint64 `json:"timestamp"`
}

type vfMismatch struct {
	MissingDevices []uint32 `json:"missingDevices"`
	ExtraDevices   []uint32 `json:"extraDevices"`
}

type vfStale struct {
	StaleDevices []uint32 `json:"staleDevices"`
}

type vfNet struct {
	dir     string
	to      string // the recipient
	id      *axolotl.IdentityKeyPair
	devs    map[uint32]*vfPeerDevice
	expect  map[uint32]bool // devices a message goes to
	session map[uint32]bool // devices there is a session with
	body    []byte          // the last delivered content
	steps   int
	n       int
	puts    int
	status  int
	few     bool // fewer kinds of answers
	regs    bool // symbolic registration ids
	ok      bool // take the message
	forever func() vftransport.VfAnswer
	keys    func(d uint32) vftransport.VfAnswer
}

// reg: each device has a registration id of its own.
func (w *vfNet) reg() uint32 {
	r := uint32(1000 * w.n)
	if w.regs {
		r += uint32(vfInt("registration id", 125, 130))
	}
	return r
}

func (w *vfNet) device(n uint32) *vfPeerDevice {
	if w.devs[n] == nil {
		w.n++
		w.devs[n] = vfNewDevice(filepath.Join(w.dir, "peer"+strconv.Itoa(w.n)), n, w.reg(), w.id)
	}
	return w.devs[n]
}

func (w *vfNet) answer(r *vftransport.VfReq) vftransport.VfAnswer {
	if d := vfKeysFor(r); d != 0 {
		vfAssert(vfAnd(w.expect[d], !w.session[d]), "prekeys are fetched for new devices only")
		w.session[d] = true
		if w.keys != nil {
			return w.keys(d)
		}
		return vftransport.VfAnswer{Status: 200, Body: vfJSON(w.device(d).bundle())}
	}
	if r.Method != "PUT" || !strings.Contains(r.URL, "/v1/messages/") {
		return vftransport.VfAnswer{Status: 404}
	}
	w.puts++
	vfAssert(strings.HasSuffix(r.URL, "/v1/messages/"+w.to), "the message is sent to the recipient")
	var m vfSent
	if err := json.Unmarshal(r.Body, &m); err != nil {
		panic("message: " + err.Error())
	}
	vfAssert(m.Destination == w.to, "the message names the recipient")
	seen := map[uint32]bool{}
	for _, x := range m.Messages {
		vfAssert(!seen[x.DestDeviceID], "one ciphertext per device")
		vfAssert(w.expect[x.DestDeviceID], "only the recipient's devices get a ciphertext")
		seen[x.DestDeviceID] = true
		d := w.device(x.DestDeviceID)
		vfAssert(x.DestRegistrationID == d.regID, "the ciphertext is labelled with the device's registration id")
		b, err := d.read(vfMe, x.Type, x.Content)
		vfAssert(err == nil, "the device can decrypt its ciphertext")
		if err == nil {
			w.body = b
		}
	}
	for d, in := range w.expect {
		vfAssert(vfOr(!in, seen[d]), "every device gets a ciphertext")
	}
	if w.forever != nil {
		return w.forever()
	}
	if w.ok {
		return vftransport.VfAnswer{Status: 200, Body: []byte(`{"needsSync":false}`)}
	}
	if w.steps == 0 {
		w.status = vfInt("status", 100, 600)
		vfAssume(vfAnd(w.status != 409, w.status != 410))
		return vftransport.VfAnswer{Status: w.status, Body: []byte(`{"needsSync":false}`)}
	}
	w.steps--
	kinds := 7
	if w.few {
		kinds = 4
	}
	var a vfMismatch
	id := func() uint32 { return uint32(vfInt("device", 1, 3)) }
	switch k := vfChoose("answer", kinds); k {
	case 0:
		a.MissingDevices = []uint32{id()}
	case 1:
		a.ExtraDevices = []uint32{id()}
	case 2:
		a.MissingDevices, a.ExtraDevices = []uint32{id()}, []uint32{id()}
		vfAssume(a.MissingDevices[0] != a.ExtraDevices[0])
	case 4:
		a.MissingDevices = []uint32{id(), id()}
	case 3, 5:
		// the devices were set up again
		l := []uint32{id()}
		if k == 5 {
			l = append(l, id())
		}
		for _, d := range l {
			w.session[d] = false
			w.devs[d] = nil
		}
		w.status = 410
		return vftransport.VfAnswer{Status: 410, Body: vfJSON(vfStale{l})}
	case 6:
		// nothing the client can make sense of
		w.steps = 0
		w.status = vfInt("status", 409, 410)
		return vftransport.VfAnswer{Status: w.status, Body: []byte(`<html>`)}
	}
	for _, d := range a.ExtraDevices {
		w.expect[d], w.session[d] = false, false
		w.devs[d] = nil
	}
	for _, d := range a.MissingDevices {
		w.expect[d] = true
	}
	w.status = 409
	return vftransport.VfAnswer{Status: 409, Body: vfJSON(a)}
}

func vfNewNet() (*vfNet, *store) {
	dir := vfTempDir()
	w := &vfNet{dir: dir, to: vfPeer, id: axolotl.GenerateIdentityKeyPair(), devs: map[uint32]*vfPeerDevice{},
		expect: map[uint32]bool{1: true}, session: map[uint32]bool{}}
	deviceLists = map[string][]uint32{}
	s, _ := vfClient(filepath.Join(dir, "mine"), w.answer)
	s.SetLocalRegistrationID(77)
	config.ConfigFile = &config.Config{UUID: vfMe, Tel: "+491", ProfileKey: make([]byte, 32)}
	return w, s
}

func (w *vfNet) said() string {
	c := &signalservice.Content{}
	if proto.Unmarshal(stripPadding(w.body), c) != nil {
		return "unreadable"
	}
	return c.GetDataMessage().GetBody()
}

func (w *vfNet) send(text string, ts uint64) (uint64, error) {
	w.body = nil
	return sendMessage(&outgoingMessage{destination: vfPeer, msg: text, timestamp: &ts})
}

func (w *vfNet) check(s *store, err error) {
	vfAssert((err == nil) == vfAnd(w.status >= 200, w.status < 300), "sending succeeds exactly when the server took the message")
	for d := uint32(1); d <= 3; d++ {
		vfAssert(s.ContainsSession(w.to, d) == w.session[d], "there is a session with exactly the devices known")
	}
}

// A message is sent while the server reports device changes, then another one.
//
//vf:fixedrand
func VC22_Devices() {
	w, s := vfNewNet()
	w.steps = 1 + vfTier()
	w.regs = true
	ts, err := w.send("first", 1000)
	w.check(s, err)
	if err == nil && w.body != nil {
		vfAssert(ts == 1000, "the message's time is reported")
		vfAssert(w.said() == "first", "the devices get the text")
	}
	w.steps = 0
	_, err = w.send("second", 2000)
	w.check(s, err)
	if err == nil && w.body != nil {
		vfAssert(w.said() == "second", "the devices get the second text")
	}
	vfReach("sent")
}

// The server reports changes in turn.
//
//vf:fixedrand
func VC22_Twice() {
	w, s := vfNewNet()
	w.steps = 2 + vfTier()
	w.few = vfTier() == 0
	_, err := w.send("hi", 1000)
	w.check(s, err)
	vfReach("sent")
}

// Messages for the user's other devices reach all of these.
//
//vf:fixedrand
func VC22_OwnDevices() {
	w, s := vfNewNet()
	w.to, w.id = vfMe, identityKey
	w.steps = 1 + vfTier()
	w.few = vfTier() == 0
	var err error
	request := vfChoose("request", 2)
	if request == 1 {
		err = SyncContacts()
	} else {
		id, from := uint64(5), vfPeer
		_, err = sendSyncMessage(&signalservice.SyncMessage{Read: []*signalservice.SyncMessage_Read{{SenderUuid: &from, Timestamp: &id}}}, nil)
	}
	w.check(s, err)
	if err == nil && w.body != nil {
		c := &signalservice.Content{}
		vfAssert(proto.Unmarshal(stripPadding(w.body), c) == nil, "the devices get a message")
		if request == 1 {
			vfAssert(c.GetSyncMessage().GetRequest().GetType() == signalservice.SyncMessage_Request_CONTACTS, "the request is what it was")
		} else {
			vfAssert(len(c.GetSyncMessage().GetRead()) == 1, "the notice is what it was")
		}
	}
	vfReach("sent")
}

// The server never takes the message.
//
//vf:fixedrand
func VC22_Endless() {
	w, _ := vfNewNet()
	stale := vfBool("stale")
	w.forever = func() vftransport.VfAnswer {
		if stale {
			w.session[1] = false
			w.devs[1] = nil
			return vftransport.VfAnswer{Status: 410, Body: vfJSON(vfStale{[]uint32{1}})}
		}
		w.expect[2] = true
		return vftransport.VfAnswer{Status: 409, Body: vfJSON(vfMismatch{MissingDevices: []uint32{2}})}
	}
	var err error
	vfMustEnd(func() { _, err = w.send("hi", 1000) })
	vfAssert(err != nil, "a message the server never takes is reported as not sent")
	vfReach("given up")
}

// The prekeys for a device cannot be had, or are those of another device.
//
//vf:fixedrand
func VC22_NoPreKeys() {
	w, s := vfNewNet()
	w.steps = 0
	if vfBool("wrong device") {
		n := uint32(vfInt("device", 0, 255))
		vfAssume(n != 1)
		w.keys = func(d uint32) vftransport.VfAnswer {
			b := w.device(d).bundle()
			b.Devices[0].DeviceID = n
			return vftransport.VfAnswer{Status: 200, Body: vfJSON(b)}
		}
	} else {
		n := vfInt("status", 100, 600)
		vfAssume(vfOr(n < 200, n >= 300))
		w.keys = func(d uint32) vftransport.VfAnswer {
			return vftransport.VfAnswer{Status: n, Body: []byte("{}")}
		}
	}
	_, err := w.send("hi", 1000)
	vfAssert(err != nil, "a message that cannot be encrypted is reported as not sent")
	vfAssert(w.puts == 0, "no message without a ciphertext for each device")
	vfAssert(!s.ContainsSession(vfPeer, 1), "no session without prekeys of the device")
	// later the prekeys are there
	w.keys = nil
	w.session[1] = false
	_, err = w.send("second", 2000)
	w.check(s, err)
	vfReach("sent")
}

// Devices may have any number.
//
//vf:fixedrand
func VC22_Numbers() {
	w, s := vfNewNet()
	w.ok, w.status = true, 200
	_, err := w.send("first", 1000)
	w.check(s, err)
	d := []uint32{4, 10, 100, 127, 128, 255, 256, 65536, 1 << 31, 1<<32 - 1}[vfChoose("device", 10)]
	asked := false
	w.forever = func() vftransport.VfAnswer {
		if asked {
			return vftransport.VfAnswer{Status: 200, Body: []byte(`{"needsSync":false}`)}
		}
		asked = true
		w.expect[d] = true
		return vftransport.VfAnswer{Status: 409, Body: vfJSON(vfMismatch{MissingDevices: []uint32{d}})}
	}
	_, err = w.send("second", 2000)
	w.check(s, err)
	vfAssert(w.said() == "second", "the devices get the text")
	_, err = w.send("third", 3000)
	w.check(s, err)
	vfAssert(w.said() == "third" && w.puts == 4, "the devices get the text")
	// and it can be gone
	asked = false
	w.forever = func() vftransport.VfAnswer {
		if asked {
			return vftransport.VfAnswer{Status: 200, Body: []byte(`{"needsSync":false}`)}
		}
		asked = true
		w.expect[d], w.session[d] = false, false
		return vftransport.VfAnswer{Status: 409, Body: vfJSON(vfMismatch{ExtraDevices: []uint32{d}})}
	}
	_, err = w.send("fourth", 4000)
	w.check(s, err)
	vfAssert(!s.ContainsSession(vfPeer, d), "there is no session with a device that is gone")
	vfReach("numbers")
}

// The prekeys for a further device are those of another device: that device's
// session is not touched, and no other appears.
//
//vf:fixedrand
func VC22_OtherDevice() {
	w, s := vfNewNet()
	w.ok, w.status = true, 200
	_, err := w.send("first", 1000)
	w.check(s, err)
	n := []uint32{1, 3, 0, 258}[vfChoose("labelled", 4)]
	own := vfChoose("of the known device", 2) == 1
	w.keys = func(d uint32) vftransport.VfAnswer {
		b := w.device(d).bundle()
		if own {
			b = w.device(1).bundle()
		}
		b.Devices[0].DeviceID = n
		return vftransport.VfAnswer{Status: 200, Body: vfJSON(b)}
	}
	asked := false
	w.forever = func() vftransport.VfAnswer {
		if asked {
			return vftransport.VfAnswer{Status: 200, Body: []byte(`{"needsSync":false}`)}
		}
		asked = true
		w.expect[2] = true
		return vftransport.VfAnswer{Status: 409, Body: vfJSON(vfMismatch{MissingDevices: []uint32{2}})}
	}
	_, err = w.send("second", 2000)
	vfAssert(err != nil, "a message that cannot be encrypted is reported as not sent")
	vfAssert(!s.ContainsSession(vfPeer, 2) && !s.ContainsSession(vfPeer, n) || n == 1 && s.ContainsSession(vfPeer, 1), "no session without prekeys of the device")
	w.keys, w.forever = nil, nil
	w.session[2] = false
	_, err = w.send("third", 3000)
	w.check(s, err)
	vfReach("sent")
}

// The published prekeys are malformed in one place.
//
//vf:fixedrand
func VC22_BadBundle() {
	w, s := vfNewNet()
	w.keys = func(d uint32) vftransport.VfAnswer {
		b := w.device(d).bundle()
		dev := &b.Devices[0]
		key := func() string {
			k := vfBytes("key", []int{0, 1, 31, 32, 33, 34}[vfChoose("length", 6)])
			if len(k) == 33 {
				vfAssume(k[0] != 5)
			}
			return vfB64(k)
		}
		flip := func(s string) string {
			k, err := base64.RawStdEncoding.DecodeString(s)
			if err != nil {
				panic("key not decoded")
			}
			m := vfU8("mask")
			vfAssume(m != 0)
			k[vfChoose("byte", 3)*31] ^= m
			return vfB64(k)
		}
		switch vfChoose("fault", 11) {
		case 0:
			dev.PreKey.PublicKey = key()
		case 1:
			dev.SignedPreKey.PublicKey = key()
		case 2:
			b.IdentityKey = key()
		case 3:
			dev.SignedPreKey.Signature = vfB64(vfBytes("signature", []int{0, 1, 63, 65}[vfChoose("length", 4)]))
		case 4:
			dev.SignedPreKey = nil
		case 5:
			b.Devices = nil
		case 6:
			b.Devices = append(b.Devices, b.Devices[0])
		case 7:
			dev.PreKey.PublicKey = "%%%"
		case 8:
			dev.SignedPreKey.PublicKey = "%%%"
		case 9:
			dev.SignedPreKey.Signature = flip(dev.SignedPreKey.Signature)
		case 10:
			b.IdentityKey = "%%%"
		}
		return vftransport.VfAnswer{Status: 200, Body: vfJSON(b)}
	}
	_, err := w.send("hi", 1000)
	vfAssert(err != nil, "a message that cannot be encrypted is reported as not sent")
	vfAssert(w.puts == 0, "no message without a ciphertext for each device")
	vfAssert(!s.ContainsSession(vfPeer, 1), "no session without proper prekeys of the device")
	vfReach("refused")
}

// The server asks for a copy to the own devices, which it may not take.
//
//vf:fixedrand
func VC22_NeedsSync() {
	w, _ := vfNewNet()
	own := vfNewDevice(filepath.Join(w.dir, "own"), 1, 4711, identityKey)
	copies := 0
	status := vfInt("status of the copy", 100, 600)
	vfAssume(vfAnd(status != 409, status != 410))
	peer := s2answer(w)
	vftransport.VfFake(&vftransport.VfServer{Answer: func(r *vftransport.VfReq) vftransport.VfAnswer {
		if !strings.HasSuffix(r.URL, "/"+vfMe) && !strings.Contains(r.URL, "/"+vfMe+"/") {
			a := peer(r)
			if a.Status == 200 && r.Method == "PUT" {
				a.Body = []byte(`{"needsSync":true}`)
			}
			return a
		}
		if vfKeysFor(r) != 0 {
			return vftransport.VfAnswer{Status: 200, Body: vfJSON(own.bundle())}
		}
		copies++
		var m vfSent
		if err := json.Unmarshal(r.Body, &m); err != nil {
			panic("message: " + err.Error())
		}
		vfAssert(len(m.Messages) == 1, "one copy for the own device")
		b, err := own.read(vfMe, m.Messages[0].Type, m.Messages[0].Content)
		vfAssert(err == nil, "the own device can decrypt the copy")
		c := &signalservice.Content{}
		if err == nil && proto.Unmarshal(stripPadding(b), c) == nil {
			sent := c.GetSyncMessage().GetSent()
			vfAssert(sent.GetDestinationUuid() == vfPeer, "the copy names the recipient")
			vfAssert(sent.GetMessage().GetBody() == "hi", "the copy has the text")
			vfAssert(sent.GetTimestamp() == 1000, "the copy has the time")
		} else {
			vfAssert(false, "the copy is readable")
		}
		return vftransport.VfAnswer{Status: status, Body: []byte("{}")}
	}})
	ts, err := w.send("hi", 1000)
	vfAssert(err == nil, "the message was sent, whatever became of the copy")
	vfAssert(ts == 1000, "the message's time is reported")
	vfAssert(copies == 1, "a copy is sent when the server asks for one")
	vfReach("copied")
}

func s2answer(w *vfNet) func(r *vftransport.VfReq) vftransport.VfAnswer {
	return func(r *vftransport.VfReq) vftransport.VfAnswer {
		w.ok = true
		return w.answer(r)
	}
}

// The recipient wrote first: answers go to the device that wrote, and to those
// the server names, labelled with their registration ids.
//
//vf:fixedrand
func VC22_Answered() {
	w, s := vfNewNet()
	w.regs = true
	d := w.device(1)
	own := axolotl.NewECKeyPair()
	vfAssert(s.StoreSignedPreKey(9, axolotl.NewSignedPreKeyRecord(9, 1, own, make([]byte, 64))) == nil, "a signed prekey is stored")
	vfAssert(axolotl.NewSessionBuilder(d.st, d.st, d.st, d.st, vfMe, 1).BuildSenderSession(vfSignedBundle(identityKey, 9, own)) == nil, "the recipient starts a session")
	n := 0
	w.steps = vfChoose("steps", 2)
	if w.steps == 0 {
		n = vfChoose("messages", 2)
	}
	for i := n; i >= 0; i-- {
		raw, typ, err := axolotl.NewSessionCipher(d.st, d.st, d.st, d.st, vfMe, 1).SessionEncryptMessage([]byte("hello"))
		vfAssert(err == nil && typ == 3, "the recipient writes first")
		pm, err := axolotl.LoadPreKeyWhisperMessage(raw)
		vfAssert(err == nil, "the message is complete")
		pt, err := axolotl.NewSessionCipher(s, s, s, s, vfPeer, 1).SessionDecryptPreKeyWhisperMessage(pm)
		vfAssert(err == nil && string(pt) == "hello", "the message is received")
	}
	w.session[1] = true
	w.few = true
	_, err := w.send("answer", 1000)
	w.check(s, err)
	if err == nil && w.body != nil {
		vfAssert(w.said() == "answer", "the devices get the text")
	}
	w.steps = 0
	_, err = w.send("again", 2000)
	w.check(s, err)
	vfReach("sent")
}
