package textsecure

//vf:use receive
//vf:use peer
//vf:use utils/ws

import (
	"path/filepath"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/utils"
)

// C37: messages delivered over the websocket are handled in order and
// acknowledged once each, after they were handled.

type vfAck struct {
	ok   bool
	id   uint64
	told int
}

func vfWsRequest(id *uint64, path string, body []byte) []byte {
	typ, verb := signalservice.WebSocketMessage_REQUEST, "PUT"
	b, err := proto.Marshal(&signalservice.WebSocketMessage{Type: &typ, Request: &signalservice.WebSocketRequestMessage{Verb: &verb, Path: &path, Id: id, Body: body}})
	if err != nil {
		panic(err)
	}
	return b
}

func vfReadAck(w *utils.VfWs, app *vfApp) (*vfAck, bool) {
	b, ok := w.Read()
	if !ok {
		return nil, false
	}
	told := app.told()
	m := &signalservice.WebSocketMessage{}
	if proto.Unmarshal(b, m) != nil {
		return &vfAck{}, true
	}
	return &vfAck{m.GetType() == signalservice.WebSocketMessage_RESPONSE && m.Request == nil && m.Response != nil && m.Response.Id != nil && m.Response.GetStatus() == 200, m.GetResponse().GetId(), told}, true
}

func vfReceiptEnvelope(ts uint64) []byte {
	t, dev, src := signalservice.Envelope_RECEIPT, uint32(1), vfPeer
	b, err := proto.Marshal(&signalservice.Envelope{Type: &t, SourceUuid: &src, SourceDevice: &dev, Timestamp: &ts})
	if err != nil {
		panic(err)
	}
	return b
}

// vfSender is a correspondent with a session; each message has its number as
// text.
func vfSender(s *store) func(text string, damage byte) []byte {
	d := vfNewDevice(filepath.Join(vfTempDir(), "peer"), 1, 99, axolotl.GenerateIdentityKeyPair())
	spk := axolotl.NewECKeyPair()
	if s.StoreSignedPreKey(7, axolotl.NewSignedPreKeyRecord(7, 1, spk, make([]byte, 64))) != nil {
		panic("prekey not stored")
	}
	s.SetLocalRegistrationID(5)
	if err := axolotl.NewSessionBuilder(d.st, d.st, d.st, d.st, vfSelf, 1).BuildSenderSession(vfSignedBundle(identityKey, 7, spk)); err != nil {
		panic("session: " + err.Error())
	}
	return func(text string, damage byte) []byte {
		ts := uint64(5)
		plain, err := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &text, Timestamp: &ts}})
		if err != nil {
			panic(err)
		}
		ct, _, err := axolotl.NewSessionCipher(d.st, d.st, d.st, d.st, vfSelf, 1).SessionEncryptMessage(padMessage(plain))
		if err != nil {
			panic("not encrypted: " + err.Error())
		}
		ct[len(ct)-6] ^= damage // of the MAC: two one-byte fields follow the message
		t, dev, src := signalservice.Envelope_PREKEY_BUNDLE, uint32(1), vfPeer
		b, err := proto.Marshal(&signalservice.Envelope{Type: &t, SourceUuid: &src, SourceDevice: &dev, ServerTimestamp: &ts, Content: ct})
		if err != nil {
			panic(err)
		}
		return b
	}
}

// A stream of messages of every kind, one at a time or all at once.
//
//vf:fixedrand
func VC37_Stream() {
	app, s := vfReceiver(true, nil)
	send := vfSender(s)
	registration.Registration = registration.RegistrationInfo{Password: "pass word", SignalingKey: generateSignalingKey()}
	n := 3 + vfTier()
	atOnce := vfChoose("at once", 2) == 1
	var frames [][]byte
	var ids []uint64
	var told []int
	var texts []string
	count := 0
	for i := 0; i < n; i++ {
		id := uint64(vfInt("id", 0, 127))
		var body []byte
		path := "/api/v1/message"
		switch vfChoose("message", 7) {
		case 0:
			texts = append(texts, string([]byte{'a' + byte(i)}))
			body = send(texts[len(texts)-1], 0)
			count++
		case 1:
			body = vfReceiptEnvelope(uint64(i))
			count++
		case 2: // no envelope
			body = []byte{0xff, 1, 2}
		case 3: // an envelope whose content cannot be decrypted
			body = send("lost", 1)
		case 4:
			path = "/api/v1/queue/empty"
		case 5: // nothing
		case 6: // an envelope of no known type
			t := signalservice.Envelope_Type(9)
			body, _ = proto.Marshal(&signalservice.Envelope{Type: &t})
		}
		frames = append(frames, vfWsRequest(&id, path, body))
		ids = append(ids, id)
		told = append(told, count)
	}
	var acks []*vfAck
	srv := &utils.VfWsServer{}
	var url string
	srv.Serve = func(w *utils.VfWs) {
		url = w.URL
		for i, f := range frames {
			w.Write(f)
			if !atOnce {
				a, ok := vfReadAck(w, app)
				if !ok {
					break
				}
				acks = append(acks, a)
				_ = i
			}
		}
		for len(acks) < len(frames) {
			a, ok := vfReadAck(w, app)
			if !ok {
				break
			}
			acks = append(acks, a)
		}
		w.Close()
	}
	addr := utils.VfWsStart(srv, vfSymbolic(), "localhost:0")
	config.ConfigFile.Server = "http://" + addr
	err := StartListening()
	utils.VfWsStop(srv)
	vfAssert(err != nil, "the end of the connection is reported")
	vfAssert(strings.Contains(url, "/v1/websocket/?") && strings.Contains(url, "login="+vfSelf) && strings.Contains(url, "password=pass+word"), "the client logs in with its account and password")
	vfAssert(len(acks) == n, "every message is acknowledged")
	good, matches, after := true, true, true
	for i, a := range acks {
		good = good && a.ok
		matches = vfAnd(matches, a.id == ids[i])
		after = after && a.told >= told[i] && (atOnce || a.told == told[i])
	}
	vfAssert(good, "acknowledgements are answers with status 200")
	vfAssert(matches, "each message is acknowledged once, by its own id, in order")
	vfAssert(after, "a message is acknowledged after it was handled")
	vfAssert(app.told() == count && len(app.msgs) == len(texts), "each message is handled once and nothing is made up")
	for i, m := range app.msgs {
		vfAssert(i < len(texts) && m.Message() == texts[i], "messages are handled in order")
	}
	vfReach("delivered")
}

// Whatever the id, the headers and the verb of a request.
//
//vf:fixedrand
func VC37_AnyRequest() {
	app, _ := vfReceiver(true, nil)
	registration.Registration = registration.RegistrationInfo{Password: "password"}
	id := vfU64("id")
	bits := uint(7 * vfChoose("length", 9))
	vfAssume(vfAnd(id >= 1<<bits, vfOr(bits == 63, id < 1<<(bits+7))))
	typ, verb, path := signalservice.WebSocketMessage_REQUEST, []string{"PUT", "put", ""}[vfChoose("verb", 3)], "/api/v1/message"
	req := &signalservice.WebSocketRequestMessage{Verb: &verb, Path: &path, Id: &id, Body: vfReceiptEnvelope(5)}
	if verb == "" {
		req.Verb = nil
	}
	for i := vfChoose("headers", 4); i > 0; i-- {
		req.Headers = append(req.Headers, []string{"X-Signal-Timestamp: 5", "X-Signal-Key: false", "x"}[i-1])
	}
	f, err := proto.Marshal(&signalservice.WebSocketMessage{Type: &typ, Request: req})
	if err != nil {
		panic(err)
	}
	var ack *vfAck
	srv := &utils.VfWsServer{}
	srv.Serve = func(w *utils.VfWs) {
		w.Write(f)
		if a, ok := vfReadAck(w, app); ok {
			ack = a
		}
		w.Close()
	}
	addr := utils.VfWsStart(srv, vfSymbolic(), "localhost:0")
	config.ConfigFile.Server = "http://" + addr
	StartListening()
	utils.VfWsStop(srv)
	vfAssert(ack != nil && ack.ok, "the message is acknowledged")
	vfAssert(app.server == 1, "the message is handled once")
	vfAssert(ack == nil || ack.id == id, "by its own id")
	vfReach("delivered")
}

// A message delivered again, as after a lost acknowledgement, is handled once
// and acknowledged again.
//
//vf:fixedrand
func VC37_Again() {
	app, s := vfReceiver(true, nil)
	send := vfSender(s)
	registration.Registration = registration.RegistrationInfo{Password: "password"}
	a, b := send("first", 0), send("second", 0)
	order := [][][]byte{{a, a}, {a, b, a}, {a, b, b, a}, {b, a, b}}[vfChoose("order", 4)]
	lost := vfChoose("lost", 2) == 1
	n, total := 0, len(order)
	srv := &utils.VfWsServer{}
	first := true
	srv.Serve = func(w *utils.VfWs) {
		for len(order) > 0 {
			id := uint64(len(order))
			w.Write(vfWsRequest(&id, "/api/v1/message", order[0]))
			if ack, ok := vfReadAck(w, app); !ok || !ack.ok || ack.id != id {
				break
			}
			order = order[1:]
			n++
			if first && lost {
				first = false
				break // the rest comes over the next connection
			}
			first = false
		}
		w.Close()
	}
	addr := utils.VfWsStart(srv, vfSymbolic(), "localhost:0")
	config.ConfigFile.Server = "http://" + addr
	vfAssert(StartListening() != nil, "the end of the connection is reported")
	if lost {
		vfAssert(StartListening() != nil, "also of the second one")
	}
	utils.VfWsStop(srv)
	vfAssert(n == total, "every delivery is acknowledged")
	texts := map[string]int{}
	for _, m := range app.msgs {
		texts[m.Message()]++
	}
	vfAssert(texts["first"] == 1 && len(app.msgs) <= 2, "a message delivered again is handled once")
	vfReach("delivered")
}

// What is no request is not acknowledged.
//
//vf:fixedrand
func VC37_NoRequest() {
	app, _ := vfReceiver(true, nil)
	registration.Registration = registration.RegistrationInfo{Password: "password"}
	typ := signalservice.WebSocketMessage_Type(vfInt("type", 0, 2))
	m := &signalservice.WebSocketMessage{Type: &typ}
	id, status := uint64(7), uint32(200)
	part := vfChoose("part", 4)
	if part == 0 || part == 2 {
		m.Response = &signalservice.WebSocketResponseMessage{Id: &id, Status: &status}
	}
	if part >= 2 { // what a request consists of, in a frame that is none
		vfAssume(typ != signalservice.WebSocketMessage_REQUEST)
		put, path := "PUT", "/api/v1/message"
		m.Request = &signalservice.WebSocketRequestMessage{Id: &id, Verb: &put, Path: &path, Body: vfReceiptEnvelope(9)}
	}
	f, _ := proto.Marshal(m)
	var acks []*vfAck
	srv := &utils.VfWsServer{}
	srv.Serve = func(w *utils.VfWs) {
		w.Write(f)
		three := uint64(3)
		w.Write(vfWsRequest(&three, "/api/v1/message", vfReceiptEnvelope(1)))
		for i := 0; i < 2; i++ {
			a, ok := vfReadAck(w, app)
			if !ok {
				break
			}
			acks = append(acks, a)
			if a.id == 3 {
				break
			}
		}
		w.Close()
	}
	addr := utils.VfWsStart(srv, vfSymbolic(), "localhost:0")
	config.ConfigFile.Server = "http://" + addr
	StartListening()
	utils.VfWsStop(srv)
	vfAssert(len(acks) == 1 && acks[0].ok && acks[0].id == 3, "only requests are acknowledged")
	vfAssert(app.server == 1, "and the next message is handled")
	vfReach("delivered")
}

// Without a server there is an error, and nothing to stop.
func VC37_NoServer() {
	vfReceiver(true, nil)
	wsconn = nil
	vfAssert(StopListening() == ErrNotListening, "there is nothing to stop")
	srv := &utils.VfWsServer{Refuse: true}
	addr := utils.VfWsStart(srv, vfSymbolic(), "localhost:0")
	config.ConfigFile.Server = "http://" + addr
	vfAssert(StartListening() != nil, "a refused connection is an error")
	utils.VfWsStop(srv)
	vfAssert(StopListening() == nil, "stopping then does no harm")
	vfReach("refused")
}

// The server stops reading acknowledgements, then the connection ends: this is
// reported, however many acknowledgements are waiting.
//
//vf:fixedrand
//vf:steps=40000000
func VC37_Stalled() {
	app, _ := vfReceiver(true, nil)
	registration.Registration = registration.RegistrationInfo{Password: "password"}
	n := []int{20, 274, 285}[vfChoose("messages", 3)]
	srv := &utils.VfWsServer{}
	srv.Serve = func(w *utils.VfWs) {
		one := uint64(1)
		f := vfWsRequest(&one, "", vfReceiptEnvelope(1))
		if vfSymbolic() {
			for i := 0; i < n; i++ {
				w.Write(f)
			}
			vfSettle()
		} else {
			// the network takes some acknowledgements as well
			go func() {
				for i := 0; i < 1000*n; i++ {
					w.Write(f)
				}
			}()
			for last, now := -1, 0; last != now; now = app.told() {
				last = now
				time.Sleep(500 * time.Millisecond)
			}
		}
		w.Reset()
	}
	addr := utils.VfWsStart(srv, vfSymbolic(), "localhost:0")
	config.ConfigFile.Server = "http://" + addr
	err := StartListening()
	vfAssert(err != nil, "the end of the connection is reported")
	utils.VfWsStop(srv)
	vfReach("ended")
}
