package textsecure

//vf:use store
//vf:use transport/fake
//vf:use crayfish/backend

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"os"
	"path/filepath"
	"strings"

	vfuconfig "github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/crayfish"
	"github.com/signal-golang/textsecure/registration"
	vftransport "github.com/signal-golang/textsecure/transport"
	"github.com/signal-golang/textsecure/utils"
)

type vfKeyID struct {
	KeyID     uint32 `json:"keyId"`
	PublicKey string
	Signature string
}

// vfUploaded are published prekeys.
type vfUploaded struct {
	IdentityKey   string
	PreKeys       []vfKeyID
	LastResortKey vfKeyID
	SignedPreKey  vfKeyID
}

// A vfSignup is the outside world of a client that registers: its user, the
// backend process and the server.
type vfSignup struct {
	dir, store, conf string
	backend          *utils.VfWsServer
	fail             string // what goes wrong
	code             string // what the user enters

	verified                        int
	password, number, name, uuid    string
	key                             []byte
	local                           []string // the account envelopes were passed on for
	uploads                         int
	auth                            string
	published                       *vfUploaded
	done, configs                   int
	profiles, certificates, refused int
	profileAuth                     string
	certificate                     []byte // what the server gives
	profile                         []byte // written last
	issue                           func(request []byte) []byte
	secret                          string // what the user enters to open the store
}

var vfNoUUID = [16]byte{}

const vfNewID = "0f0e0d0c-0b0a-4908-8706-050403020100"

func vfNewSignup() *vfSignup {
	dir := vfTempDir()
	w := &vfSignup{dir: dir, store: filepath.Join(dir, "store"), conf: filepath.Join(dir, "config.yml"), code: "123456"}
	preKeyBatchSize = 1
	base := vftransport.VfListen(&vftransport.VfServer{Answer: w.answer}, vfSymbolic())
	if WriteConfig(w.conf, &vfuconfig.Config{Server: base, StorageDir: w.store, UnencryptedStorage: true, LogLevel: "error"}) != nil {
		panic("settings not written")
	}
	return w
}

// serve is the backend.
func (w *vfSignup) serve(c *utils.VfWs) {
	for {
		b, ok := c.Read()
		if !ok {
			return
		}
		var m struct {
			Request struct {
				Type    int `json:"type"`
				Message struct {
					Number       string   `json:"number"`
					Password     string   `json:"password"`
					Code         uint64   `json:"confirm_code"`
					SignalingKey [52]byte `json:"signaling_key"`
					Name         string   `json:"name"`
					Local        string   `json:"local_uuid"`
				} `json:"message"`
			} `json:"request"`
		}
		if json.Unmarshal(b, &m) != nil {
			panic("backend: no request")
		}
		q := m.Request.Message
		switch m.Request.Type {
		case 1:
			c.Write([]byte(`{"type":2,"response":{"type":1,"message":{"status":"ok"}}}`))
		case 2:
			switch w.fail {
			case "backend gone":
				c.Close()
				return
			case "no account":
				c.Write(vfVerified(vfNoUUID))
				continue
			}
			w.verified++
			w.password, w.number, w.name, w.key = q.Password, q.Number, q.Name, q.SignalingKey[:]
			w.uuid = vfNewID
			id := [16]byte{}
			for i := range id {
				id[i] = byte(15 - i)
			}
			id[6], id[8] = 0x49, 0x87
			c.Write(vfVerified(id))
		case 3:
			w.local = append(w.local, q.Local)
			c.Write([]byte(`{"type":2,"response":{"type":3,"message":{"message":""}}}`))
		}
	}
}

func vfVerified(id [16]byte) []byte {
	typ, rt := crayfish.CrayfishWebSocketMessage_RESPONSE, crayfish.CrayfishWebSocketResponseMessageTyp_VERIFY_REGISTRATION
	return vfJSON2(&crayfish.CrayfishWebSocketMessage{Type: &typ, Response: &crayfish.CrayfishWebSocketResponseMessage{Type: &rt,
		Message: &crayfish.CrayfishWebSocketResponse_VERIFY_REGISTER_MESSAGE{UUID: id}}})
}

func vfJSON2(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err.Error())
	}
	return b
}

// answer is the server.
func (w *vfSignup) answer(r *vftransport.VfReq) vftransport.VfAnswer {
	switch {
	case r.Method == "PUT" && strings.HasSuffix(r.URL, "/v2/keys/"):
		switch w.fail {
		case "upload refused":
			return vftransport.VfAnswer{Status: 500}
		case "upload lost":
			return vftransport.VfAnswer{Err: errors.New("connection lost")}
		}
		p := &vfUploaded{}
		if json.Unmarshal(r.Body, p) != nil {
			panic("server: prekeys unreadable")
		}
		w.uploads++
		w.published, w.auth = p, r.Header.Get("Authorization")
		return vftransport.VfAnswer{Status: 200}
	case strings.HasSuffix(r.URL, "/v1/certificate/delivery"):
		w.certificates++
		if w.certificate != nil {
			return vftransport.VfAnswer{Status: 200, Body: vfJSON2(map[string][]byte{"certificate": w.certificate})}
		}
		return vftransport.VfAnswer{Status: 200, Body: []byte(`{"certificate":"CgA="}`)}
	case r.Method == "PUT" && strings.HasSuffix(r.URL, "/v1/profile/"):
		w.profiles++
		w.profileAuth = r.Header.Get("Authorization")
		w.profile = r.Body
		return vftransport.VfAnswer{Status: 200}
	case w.issue != nil && r.Method == "GET" && strings.Contains(r.URL, "/v1/profile/"):
		request, err := hex.DecodeString(r.URL[strings.LastIndex(r.URL, "/")+1:])
		if err != nil {
			break
		}
		return vftransport.VfAnswer{Status: 200, Body: vfJSON2(map[string]string{"uuid": vfuconfig.ConfigFile.UUID, "credential": base64.StdEncoding.EncodeToString(w.issue(request))})}
	}
	w.refused++
	return vftransport.VfAnswer{Status: 404}
}

// start starts the client anew.
func (w *vfSignup) start() error {
	textSecureStore, identityKey, preKeys, signedKey, preKeyRecords = nil, nil, nil, nil, nil
	registration.Registration = registration.RegistrationInfo{}
	crayfish.Instance = nil
	vfuconfig.ConfigFile = &vfuconfig.Config{}
	w.done, w.configs = 0, 0
	w.backend = crayfish.VfBackend(vfSymbolic(), w.serve)
	w.backend.Refuse = w.fail == "no backend"
	return Setup(&Client{
		GetConfig: func() (*vfuconfig.Config, error) {
			w.configs++
			if w.fail == "no settings" || w.fail == "settings lost" && w.configs > 1 {
				return nil, errors.New("no settings")
			}
			c, err := ReadConfig(w.conf)
			if w.fail == "settings kept later" {
				w.block()
			}
			return c, err
		},
		GetPhoneNumber: func() string {
			if vfSymbolic() {
				vfSettle()
			}
			if w.fail != "no backend" && !crayfish.VfWait() {
				panic("backend: not connected")
			}
			return "+4930123"
		},
		GetVerificationCode: func() string {
			switch w.fail {
			case "disk":
				if os.Rename(filepath.Join(w.store, "signed_prekeys"), filepath.Join(w.store, "gone")) != nil {
					panic("directory not moved")
				}
			case "settings kept":
				w.block()
			case "wrong code":
				return "abc"
			}
			return w.code
		},
		GetCaptchaToken:    func() string { return "captcha" },
		GetUsername:        func() string { return "Alice" },
		GetStoragePassword: func() string { return w.secret },
		RegistrationDone:   func() { w.done++ },
	})
}

// block makes the settings impossible to write.
func (w *vfSignup) block() {
	if os.Rename(w.conf, w.conf+".was") != nil || os.Mkdir(w.conf, 0700) != nil {
		panic("settings not moved")
	}
}

func (w *vfSignup) unblock() {
	if os.Remove(w.conf) != nil || os.Rename(w.conf+".was", w.conf) != nil {
		panic("settings not moved back")
	}
}

// stop ends the backend of a client that was started.
func (w *vfSignup) stop() {
	if vfSymbolic() {
		vfSettle()
	}
	crayfish.VfEnd(w.backend)
}

func vfKeyBytes(s string) []byte {
	b, err := base64.RawStdEncoding.DecodeString(strings.TrimRight(s, "="))
	if err != nil {
		panic("not base64: " + s)
	}
	return b
}
