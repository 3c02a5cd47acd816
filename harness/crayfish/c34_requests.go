package crayfish

//vf:use utils/ws

import (
	"encoding/base64"
	"encoding/json"
	"os"
	"os/exec"
	"time"

	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/utils"
)

// C34: requests to the backend process and their answers.

type vfRequest struct {
	Type    int `json:"type"`
	Request struct {
		Type    int `json:"type"`
		Message struct {
			Message string `json:"message"`
			Avatar  string `json:"avatar"`
			Code    uint64 `json:"confirm_code"`
		} `json:"message"`
	} `json:"request"`
}

// vfAnswer is the backend's answer to a request.
func vfAnswer(b []byte) []byte {
	r := &vfRequest{}
	if json.Unmarshal(b, r) != nil || r.Type != 1 {
		panic("backend: no request")
	}
	t := r.Request.Type
	var m interface{}
	switch t {
	case 2:
		m = &CrayfishWebSocketResponse_VERIFY_REGISTER_MESSAGE{UUID: [16]byte{15: byte(r.Request.Message.Code)}}
	case 3:
		m = &CrayfishWebSocketResponse_HANDLE_ENVELOPE_MESSAGE{Message: r.Request.Message.Message}
	case 4:
		m = &CrayfishWebSocketResponse_AVATAR_MESSAGE{Avatar: r.Request.Message.Avatar}
		t = 3
	}
	return vfResponse(t, m)
}

func vfResponse(t int, m interface{}) []byte {
	typ, rt := CrayfishWebSocketMessage_RESPONSE, CrayfishWebSocketResponseMessageType(t)
	b, err := json.Marshal(&CrayfishWebSocketMessage{Type: &typ, Response: &CrayfishWebSocketResponseMessage{Type: &rt, Message: m}})
	if err != nil {
		panic("backend: " + err.Error())
	}
	return b
}

// vfConnect starts a backend and the client's connection to it.
func vfConnect(serve func(w *utils.VfWs)) *utils.VfWsServer {
	s := &utils.VfWsServer{Serve: serve}
	utils.VfWsStart(s, vfSymbolic(), "localhost:9081")
	p, err := os.FindProcess(os.Getpid())
	if err != nil {
		panic(err)
	}
	Instance = &CrayfishInstance{LocalUUID: "me", cmd: &exec.Cmd{Process: p}}
	go Instance.StartWebsocket()
	if vfSymbolic() {
		vfSettle()
	} else {
		for i := 0; i < 2000 && Instance.wsconn == nil; i++ {
			time.Sleep(time.Millisecond)
		}
	}
	return s
}

// vfCall sends a request of one of three kinds and tells whether its own
// answer came.
func vfCall(kind int, tag byte) (own bool, err error) {
	switch kind {
	case 0:
		r, err := Instance.HandleEnvelope([]byte{tag})
		return err == nil && r.Message == base64.StdEncoding.EncodeToString([]byte{tag}), err
	case 1:
		b, err := Instance.DecryptAvatar([]byte{tag}, make([]byte, 32))
		return err == nil && len(b) == 1 && b[0] == tag, err
	}
	r, err := Instance.CrayfishRegisterWithCode(&registration.RegistrationInfo{}, "+491", "", string([]byte{'1', '0', '0' + tag}))
	return err == nil && r.UUID == "00000000-0000-0000-0000-00000000006"+string([]byte{'4' + tag}), err
}

// What a backend says besides its answers.
var vfNoise = []string{
	"",
	`{"type":2,"response":{"type":1,"message":{"status":"ok"}}}`,
	`{"type":1,"request":{"type":3}}`,
	`{"type":2}`,
	`{}`,
	`no json`,
	`{"type":1}`,
	`{"type":7,"response":{"type":3}}`,
	`{"type":2,"response":{}}`,
	`[]`,
	`null`,
}

func vfServe(noise string) func(w *utils.VfWs) {
	return func(w *utils.VfWs) {
		for {
			b, ok := w.Read()
			if !ok {
				return
			}
			if noise != "" {
				w.Write([]byte(noise))
			}
			w.Write(vfAnswer(b))
		}
	}
}

// Two callers at the same time, in every order of all steps.
//
//vf:preempt=1
func VC34_Two() {
	pairs := [][]int{{0, 0}, {0, 1}, {1, 2}, {2, 2}, {1, 1}, {0, 2}}
	pair := pairs[vfChoose("kinds", 2+4*vfTier())]
	s := vfConnect(vfServe(""))
	own := make(chan bool, 2)
	vfSched(true)
	for i, kind := range pair {
		go func(kind int, tag byte) {
			ok, _ := vfCall(kind, tag)
			own <- ok
		}(kind, byte(i+1))
	}
	x, y := <-own, <-own
	vfSched(false)
	vfAssert(x && y, "every caller gets the answer to its own request")
	ok, err := vfCall(0, 3)
	vfAssert(ok && err == nil, "and later requests are answered")
	utils.VfWsStop(s)
	vfReach("answered")
}

// One request after another, with other messages of the backend before each
// answer.
//
//vf:preempt=1
func VC34_Noise() {
	s := vfConnect(vfServe(vfNoise[vfChoose("noise", len(vfNoise))]))
	kinds := []int{vfChoose("first", 3), vfChoose("second", 3)}
	vfSched(true)
	for i, kind := range kinds {
		ok, err := vfCall(kind, byte(i+1))
		vfAssert(err == nil, "a request is answered")
		vfAssert(ok, "by its own answer")
	}
	vfSched(false)
	utils.VfWsStop(s)
	vfReach("answered")
}

// The connection ends at any time: callers get an error, and once there is a
// new connection, answers again.
//
//vf:preempt=1
func VC34_Gone() {
	when := vfChoose("when", 4)
	kind := vfChoose("kind", 3)
	n := 0
	s := vfConnect(func(w *utils.VfWs) {
		n++
		if n > 1 {
			vfServe("")(w)
			return
		}
		if when == 0 {
			w.Close()
			return
		}
		b, ok := w.Read()
		if !ok {
			return
		}
		switch when {
		case 1:
			w.Close()
		case 2:
			w.Write([]byte("{"))
			w.Close()
		case 3:
			w.Write(vfAnswer(b))
			w.Close()
		}
	})
	vfSched(true)
	ok, err := vfCall(kind, 1)
	vfAssert(err != nil || ok, "without an answer there is an error")
	if when < 3 {
		vfAssert(err != nil, "a caller does not wait for a connection that is gone")
	}
	vfSched(false)
	old := Instance.wsconn
	go Instance.StartWebsocket()
	if vfSymbolic() {
		vfSettle()
	} else {
		for i := 0; i < 2000 && Instance.wsconn == old; i++ {
			time.Sleep(time.Millisecond)
		}
	}
	ok, err = vfCall(kind, 2)
	vfAssert(err == nil && ok, "over a new connection requests are answered again")
	utils.VfWsStop(s)
	vfReach("ended")
}

// Before there is a connection, calls fail at once.
func VC34_NotConnected() {
	Instance = &CrayfishInstance{}
	for kind := 0; kind < 3; kind++ {
		_, err := vfCall(kind, 1)
		vfAssert(err != nil, "without a connection a request fails")
	}
	vfAssert(Instance.CrayfishRegister(&registration.RegistrationInfo{}, "+491", "") != nil, "and so does a registration")
	vfAssert(Instance.StopListening() == ErrNotListening, "there is nothing to stop")
	vfReach("refused")
}

// An answer nobody asked for is dropped, whatever it holds, and does not reach
// the next caller.
//
//vf:preempt=1
func VC34_Unasked() {
	tag := vfChoose("type", 2)
	count := 1 + vfChoose("count", 2)
	told := make(chan bool, 1)
	s := vfConnect(func(w *utils.VfWs) {
		for i := 0; i < count; i++ {
			w.Write(vfResponse(2+tag, &CrayfishWebSocketResponse_HANDLE_ENVELOPE_MESSAGE{Message: "c3R1ZmY="}))
		}
		told <- true
		vfServe("")(w)
	})
	<-told
	if vfSymbolic() {
		vfSettle()
	} else {
		time.Sleep(100 * time.Millisecond)
	}
	vfSched(true)
	own := make(chan bool, 1)
	go func() {
		ok, _ := vfCall(0, 1)
		own <- ok
	}()
	vfAssert(<-own, "the next caller gets its own answer")
	vfSched(false)
	utils.VfWsStop(s)
	vfReach("answered")
}

// Answers whose message is not what was asked for give an error or an empty
// result, and the connection goes on.
func VC34_Odd() {
	odd := []string{`{}`, `null`, `"text"`, `[1]`, `7`, `{"message":7}`, `{"avatar":"*"}`, `{"uuid":"x"}`, `{"uuid":[1,2]}`, `{"sender":null}`, `{"message":null,"avatar":null,"uuid":null}`}[vfChoose("odd", 11)]
	kind := vfChoose("kind", 3)
	first := true
	s := vfConnect(func(w *utils.VfWs) {
		for {
			b, ok := w.Read()
			if !ok {
				return
			}
			if first {
				first = false
				w.Write([]byte(`{"type":2,"response":{"type":3,"message":` + odd + `}}`))
				continue
			}
			w.Write(vfAnswer(b))
		}
	})
	ok, _ := vfCall(kind, 1)
	vfAssert(!ok, "nothing is made up")
	ok, err := vfCall(kind, 2)
	vfAssert(ok && err == nil, "the next request is answered")
	utils.VfWsStop(s)
	vfReach("answered")
}

// Messages without an answer do not get in the way of requests.
//
//vf:preempt=1
func VC34_Acknowledged() {
	s := vfConnect(func(w *utils.VfWs) {
		for {
			b, ok := w.Read()
			if !ok {
				return
			}
			r := &vfRequest{}
			if json.Unmarshal(b, r) == nil && r.Request.Type == 1 {
				w.Write(vfResponse(1, &ACKMessage{Status: "ok"}))
				continue
			}
			w.Write(vfAnswer(b))
		}
	})
	vfSched(true)
	own := make(chan bool, 2)
	go func() {
		own <- Instance.CrayfishRegister(&registration.RegistrationInfo{Password: "x"}, "+491", "captcha") == nil
	}()
	go func() {
		ok, _ := vfCall(0, 1)
		own <- ok
	}()
	a, b := <-own, <-own
	vfAssert(a && b, "both are taken and the request is answered")
	vfSched(false)
	utils.VfWsStop(s)
	vfReach("answered")
}
