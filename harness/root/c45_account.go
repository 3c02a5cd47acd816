package textsecure

//vf:use server
//vf:use provision

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/registration"
	vftransport "github.com/signal-golang/textsecure/transport"
	"github.com/signal-golang/textsecure/unidentifiedAccess"
)

// C45: what the service is told about the account, and its linked devices.

// vfAccount are the attributes as the service reads them.
type vfAccount struct {
	SignalingKey          *string
	FetchesMessages       bool
	RegistrationID        uint64 `json:"registrationId"`
	Name                  string
	UnidentifiedAccessKey string
	Capabilities          map[string]bool
}

var vfCapabilities = []string{"gv2", "senderKey", "announcementGroup", "changeNumber", "stories", "giftBadges", "storage", "gv1-migration"}

func vfCapable(c *config.AccountCapabilities) []*bool {
	return []*bool{&c.Gv2, &c.SenderKey, &c.AnnouncementGroup, &c.ChangeNumber, &c.Stories, &c.GiftBadges, &c.Storage, &c.Gv1Migration}
}

func vfChosen(name string) config.AccountCapabilities {
	c := config.AccountCapabilities{}
	k := vfChoose(name, len(vfCapabilities)+2)
	for i, b := range vfCapable(&c) {
		*b = i == k || k == len(vfCapabilities)
	}
	return c
}

// The service learns the chosen capabilities, the account's registration id,
// signaling key and name, and the access key that contacts derive; the
// settings say what the service was told, and nothing it refused.
func VC45_Attributes() {
	dir := vfTempDir()
	status := vfInt("status", 100, 999)
	profile := vfChoose("profile", 3)
	var told []*vftransport.VfReq
	vfClient(dir, func(r *vftransport.VfReq) vftransport.VfAnswer {
		switch {
		case strings.HasSuffix(r.URL, "/v1/accounts/attributes/"):
			told = append(told, r)
			return vftransport.VfAnswer{Status: status}
		case strings.Contains(r.URL, "/v1/profile/") && r.Method == "GET":
			return []vftransport.VfAnswer{{Body: []byte(`{"uuid":"` + vfPeer + `"}`)}, {Status: 404}, {Err: errors.New("connection lost")}}[profile]
		}
		return vftransport.VfAnswer{Status: 404}
	})
	before := config.AccountCapabilities{}
	for _, b := range vfCapable(&before) {
		*b = profile == 1
	}
	configFile = filepath.Join(dir, "config.yml")
	config.ConfigFile = &config.Config{UUID: vfPeer, Tel: "+491", Name: vfString("name", 3), ProfileKey: vfBytes("profile key", 32), AccountCapabilities: before}
	vfAssume(vfPrintable(config.ConfigFile.Name))
	if WriteConfig(configFile, config.ConfigFile) != nil {
		panic("settings not written")
	}
	registration.Registration = registration.RegistrationInfo{RegistrationID: []uint32{1, 77, 16383}[profile], SignalingKey: make([]byte, 52)}
	for i := range registration.Registration.SignalingKey {
		registration.Registration.SignalingKey[i] = byte(3 + 5*i)
	}
	registrationID, signaling := registration.Registration.RegistrationID, append([]byte{}, registration.Registration.SignalingKey...)
	want := vfChosen("wanted")
	err := SetAccountCapabilities(want)
	vfAssert(len(told) == 1 && told[0].Method == "PUT", "the service is told once")
	accepted := vfAnd(status >= 200, status <= 299)
	a := &vfAccount{}
	vfAssert(json.Unmarshal(told[0].Body, a) == nil, "in JSON")
	vfAssert(a.RegistrationID == uint64(registrationID) && a.FetchesMessages, "it learns the registration id")
	vfAssert(a.SignalingKey != nil, "and a signaling key")
	key, kerr := base64.StdEncoding.DecodeString(*a.SignalingKey)
	vfAssert(kerr == nil, "in base 64")
	vfAssert(bytes.Equal(key, signaling), "which is the account's")
	vfAssert(a.Name == config.ConfigFile.Name, "it learns the name")
	theirs, kerr := unidentifiedAccess.GetTargetUnidentifiedAccessKey(contacts.Contact{UUID: vfPeer, ProfileKey: config.ConfigFile.ProfileKey})
	vfAssert(kerr == nil && len(theirs) == 16, "contacts derive an access key")
	vfAssert(a.UnidentifiedAccessKey == base64.StdEncoding.EncodeToString(theirs), "the service learns the access key that contacts derive")
	for i, b := range vfCapable(&want) {
		vfAssert(a.Capabilities[vfCapabilities[i]] == *b, "it learns the capabilities chosen")
	}
	vfAssert(vfImplies(!accepted, err != nil), "what the service refuses fails")
	if profile == 0 {
		vfAssert(vfImplies(accepted, err == nil), "what it takes succeeds")
	}
	saved, rerr := ReadConfig(configFile)
	vfAssert(rerr == nil, "the settings can be read")
	if err == nil {
		vfAssert(config.ConfigFile.AccountCapabilities == want && saved.AccountCapabilities == want, "the settings say what the service was told")
	}
	if !accepted {
		vfAssert(config.ConfigFile.AccountCapabilities == before && saved.AccountCapabilities == before, "the settings say nothing the service refused")
	}
	vfReach("told")
}

func vfPrintable(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vfAnd(ok, s[i] >= ' ', s[i] < 127)
	}
	return ok
}

// Settings that cannot be saved are no success.
func VC45_Unsaved() {
	dir := vfTempDir()
	vfClient(dir, func(r *vftransport.VfReq) vftransport.VfAnswer {
		return vftransport.VfAnswer{Body: []byte(`{"uuid":"` + vfPeer + `"}`)}
	})
	configFile = filepath.Join(dir, "gone", "config.yml")
	config.ConfigFile = &config.Config{UUID: vfPeer, ProfileKey: make([]byte, 32)}
	registration.Registration = registration.RegistrationInfo{RegistrationID: 1, SignalingKey: make([]byte, 52)}
	want := vfChosen("wanted")
	vfAssert(SetAccountCapabilities(want) != nil, "capabilities that are not saved are reported")
	vfReach("reported")
}

// The list of linked devices is the service's.
func VC45_List() {
	n := vfLen("devices", 0, 3)
	list := make([]DeviceInfo, n)
	raw := []map[string]interface{}{}
	for i := range list {
		list[i] = DeviceInfo{ID: []uint32{1, 2, 1<<32 - 1}[vfChoose(fmt.Sprint("id ", i), 3)], Name: vfString(fmt.Sprint("name ", i), 3), Created: []uint64{0, 1<<53 + 1, 1<<64 - 1}[i], LastSeen: []uint64{1 << 40, 0, 5}[i]}
		vfAssume(vfPrintable(list[i].Name))
		raw = append(raw, map[string]interface{}{"id": list[i].ID, "name": list[i].Name, "created": list[i].Created, "lastSeen": list[i].LastSeen, "more": "x"})
	}
	status := vfInt("status", 100, 999)
	_, srv := vfClient(vfTempDir(), func(r *vftransport.VfReq) vftransport.VfAnswer {
		b, err := json.Marshal(map[string]interface{}{"devices": raw})
		if err != nil {
			panic(err.Error())
		}
		return vftransport.VfAnswer{Status: status, Body: b}
	})
	got, err := LinkedDevices()
	vfAssert(len(srv.Log) == 1 && srv.Log[0].Method == "GET" && strings.HasSuffix(srv.Log[0].URL, "/v1/devices/"), "the service is asked for the account's devices")
	ok := vfAnd(status >= 200, status <= 299)
	vfAssert((err == nil) == ok, "refusals are reported")
	if err != nil {
		vfAssert(len(got) == 0, "and give no devices")
		return
	}
	vfAssert(len(got) == n, "all devices are listed")
	for i := range got {
		vfAssert(vfAnd(got[i].ID == list[i].ID, got[i].Name == list[i].Name, got[i].Created == list[i].Created, got[i].LastSeen == list[i].LastSeen), "each as the service knows it")
	}
	vfReach("listed")
}

// Exactly the device named is unlinked.
func VC45_Unlink() {
	id := []int{1, 2, 3, 10, 123, 1<<31 - 1}[vfChoose("device", 6)]
	status := vfInt("status", 100, 999)
	_, srv := vfClient(vfTempDir(), func(r *vftransport.VfReq) vftransport.VfAnswer {
		return vftransport.VfAnswer{Status: status}
	})
	err := UnlinkDevice(id)
	vfAssert(len(srv.Log) == 1 && srv.Log[0].Method == "DELETE" && strings.HasSuffix(srv.Log[0].URL, fmt.Sprintf("/v1/devices/%d", id)), "exactly the device named is unlinked")
	vfAssert((err == nil) == vfAnd(status >= 200, status <= 299), "and refusals are reported")
	vfReach("unlinked")
}

// The push token and the account id go to and come from the service as they are.
func VC45_Push() {
	token := vfString("token", vfLen("token length", 0, 6))
	vfAssume(vfPrintable(token))
	status := vfInt("status", 100, 999)
	_, srv := vfClient(vfTempDir(), func(r *vftransport.VfReq) vftransport.VfAnswer {
		if r.Method == "GET" {
			return vftransport.VfAnswer{Status: status, Body: []byte(`{"uuid":"` + vfPeer + `","number":"+491"}`)}
		}
		return vftransport.VfAnswer{Status: status}
	})
	ok := vfAnd(status >= 200, status <= 299)
	err := RegisterWithUPS(token)
	vfAssert((err == nil) == ok, "refusals of the push token are reported")
	vfAssert(len(srv.Log) == 1 && srv.Log[0].Method == "PUT" && strings.HasSuffix(srv.Log[0].URL, "/v1/accounts/ups/"), "it goes to the account's push service")
	var m map[string]string
	vfAssert(json.Unmarshal(srv.Log[0].Body, &m) == nil && len(m) == 1, "in JSON")
	vfAssert(m["upsRegistrationId"] == token, "as it is")
	id, err := GetMyUUID()
	vfAssert((err == nil) == ok, "refusals of the account id are reported")
	vfAssert(len(srv.Log) == 2 && strings.HasSuffix(srv.Log[1].URL, "/v1/accounts/whoami"), "the service is asked who this is")
	if err == nil {
		vfAssert(id == vfPeer, "the account id is the service's")
	} else {
		vfAssert(id == "", "and none is made up")
	}
	vfReach("answered")
}

// Linking devices again and again: every message carries a code of the
// service, and a code that failed is not tried again.
//
//vf:fixedrand
func VC45_Codes() {
	var issued []string
	var sent *vftransport.VfReq
	fail := 0
	vfClient(vfTempDir(), func(r *vftransport.VfReq) vftransport.VfAnswer {
		if strings.Contains(r.URL, "provisioning/code") {
			if fail == 1 {
				return vftransport.VfAnswer{Status: 500}
			}
			issued = append(issued, fmt.Sprintf("135-79%d", len(issued)))
			return vftransport.VfAnswer{Body: []byte(`{"verificationCode":"` + issued[len(issued)-1] + `"}`)}
		}
		sent = r
		switch fail {
		case 2:
			return vftransport.VfAnswer{Status: 404}
		case 3:
			return vftransport.VfAnswer{Err: errors.New("connection lost")}
		}
		return vftransport.VfAnswer{}
	})
	config.ConfigFile = &config.Config{UUID: vfPeer, Tel: "+4912345"}
	code2 = ""
	failed := map[string]bool{}
	last := -1
	for i := 0; i < 2+vfTier(); i++ {
		newDevice := axolotl.GenerateIdentityKeyPair()
		enc := base64.StdEncoding.EncodeToString(newDevice.PublicKey.Serialize())
		fail = vfChoose(fmt.Sprint("attempt ", i), 5)
		if fail == 4 {
			enc = enc[1:]
		}
		sent = nil
		err := AddNewLinkedDevice("address", enc)
		if fail == 1 && last == 0 && err == nil {
			fail = 0 // the last code was taken, and serves again for a while
		}
		vfAssert((err == nil) == (fail == 0), "it is reported whether the device was linked")
		if fail == 1 || fail == 4 {
			vfAssert(sent == nil, "without a code or a key nothing is sent")
			last = fail
			if fail == 4 && len(issued) > 0 {
				failed[issued[len(issued)-1]] = true
			}
			continue
		}
		last = fail
		var body struct{ Body string }
		if sent == nil || json.Unmarshal(sent.Body, &body) != nil {
			vfAssert(false, "one message is sent")
			return
		}
		env, err := base64.StdEncoding.DecodeString(body.Body)
		pm, ok := vfProvisioned(newDevice.PrivateKey.Key(), env)
		vfAssert(err == nil && ok, "the new device can read it")
		known := false
		for _, c := range issued {
			known = known || c == pm.GetProvisioningCode()
		}
		vfAssert(known, "it carries a code of the service")
		vfAssert(!failed[pm.GetProvisioningCode()], "a code that failed is not tried again")
		if fail != 0 {
			failed[pm.GetProvisioningCode()] = true
		}
	}
	vfReach("linked")
}

// A verification code is asked for by the number and in the way named, and
// what keeps the service from sending one is told apart.
func VC45_AskCode() {
	status := vfInt("status", 200, 599)
	lost := vfChoose("lost", 2) == 1
	_, srv := vfClient(vfTempDir(), func(r *vftransport.VfReq) vftransport.VfAnswer {
		if lost {
			return vftransport.VfAnswer{Err: errors.New("connection lost")}
		}
		return vftransport.VfAnswer{Status: status, Body: []byte("{}")}
	})
	method := []string{"sms", "voice"}[vfChoose("method", 2)]
	captcha := []string{"", "signal-recaptcha.abc"}[vfChoose("captcha", 2)]
	_, why, err := requestCode("+4930123", method, captcha)
	vfAssert(len(srv.Log) == 1 && srv.Log[0].Method == "GET" && strings.Contains(srv.Log[0].URL, "/v1/accounts/"+method+"/code/+4930123?"), "a code is asked for once, for the number, in the way named")
	vfAssert(strings.Contains(srv.Log[0].URL, "captcha=") == (captcha != "") && strings.HasSuffix(srv.Log[0].URL, captcha), "the solved captcha is shown")
	if lost {
		vfAssert(err != nil && why == nil, "a lost connection is reported")
	} else {
		vfAssert((err == nil) == (status < 300), "a code that is not sent is reported")
		vfAssert((why != nil) == (status == 402 || status == 413), "a captcha to be solved and too many requests are told apart")
		if why != nil {
			vfAssert(*why == status, "as the service says")
		}
	}
	vfReach("asked")
}

// The code is confirmed as entered, with the account's attributes; a
// registration lock is told apart, with what the service gives to lift it.
func VC45_Confirm() {
	status := vfInt("status", 200, 599)
	lost := vfChoose("lost", 2) == 1
	vfNone := vfChoose("answer", 2) == 1
	_, srv := vfClient(vfTempDir(), func(r *vftransport.VfReq) vftransport.VfAnswer {
		if lost {
			return vftransport.VfAnswer{Err: errors.New("connection lost")}
		}
		if vfNone {
			return vftransport.VfAnswer{Status: status, Body: []byte("no")}
		}
		return vftransport.VfAnswer{Status: status, Body: []byte(`{"timeRemaining":5,"backupCredentials":{"username":"u1","password":"p1"}}`)}
	})
	registration.Registration = registration.RegistrationInfo{RegistrationID: 77, SignalingKey: []byte("0123456789012345678901234567890123456789012345678901")}
	config.ConfigFile = &config.Config{UUID: vfPeer, Tel: "+491", Name: "Alice", ProfileKey: []byte("01234567890123456789012345678901")}
	var pin *string
	var locked *vftransport.AuthCredentials
	if vfChoose("pin", 2) == 1 {
		p := "1234"
		pin, locked = &p, &vftransport.AuthCredentials{Username: "u0", Password: "p0"}
	}
	c, err := verifyCode([]string{"123456", "123-456", "12-34-56"}[vfChoose("code", 3)], pin, locked)
	vfAssert(len(srv.Log) == 1 && srv.Log[0].Method == "PUT" && strings.HasSuffix(srv.Log[0].URL, "/v1/accounts/code/123456"), "the code is confirmed once, as entered")
	a := struct {
		vfAccount
		Pin                     *string
		BasicStorageCredentials vftransport.AuthCredentials
	}{}
	vfAssert(json.Unmarshal(srv.Log[0].Body, &a) == nil, "in JSON")
	vfAssert(a.RegistrationID == 77 && a.FetchesMessages && a.Name == "Alice", "the service learns the registration id and the name")
	vfAssert(a.SignalingKey != nil && *a.SignalingKey == base64.StdEncoding.EncodeToString(registration.Registration.SignalingKey), "it learns the signaling key")
	theirs, kerr := unidentifiedAccess.GetTargetUnidentifiedAccessKey(contacts.Contact{UUID: vfPeer, ProfileKey: config.ConfigFile.ProfileKey})
	vfAssert(kerr == nil && a.UnidentifiedAccessKey == base64.StdEncoding.EncodeToString(theirs), "it learns the access key that contacts derive")
	if pin == nil {
		vfAssert(a.Pin == nil && a.BasicStorageCredentials.Username == "", "no registration lock is shown")
	} else {
		vfAssert(a.Pin != nil && *a.Pin == "1234" && a.BasicStorageCredentials == *locked, "the registration lock is shown")
	}
	if lost {
		vfAssert(err != nil && c == nil, "a lost connection is reported")
	} else {
		vfAssert((err == nil) == (status < 300), "a code that is not taken is reported")
		vfAssert((c != nil) == (status == 423 && !vfNone), "a registration lock is told apart")
		if c != nil {
			vfAssert(c.Username == "u1" && c.Password == "p1", "with what lifts it")
		}
	}
	vfReach("confirmed")
}
