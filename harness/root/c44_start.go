package textsecure

//vf:use signup
//vf:use transport/fake

import (
	"bytes"
	"encoding/base64"
	"os"
	"path/filepath"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/transport"
)

// C44: every start uses what belongs to the account.

// vfAccount is what belongs to an account, as the client uses it.
type vfAccount struct {
	identity            axolotl.IdentityKeyPair
	id                  uint32
	password, uuid, tel string
	signaling, profile  []byte
	name                string
	credential, stored  []byte
}

func vfUsed(w *vfSignup) vfAccount {
	r, c := registration.Registration, config.ConfigFile
	b, err := os.ReadFile(filepath.Join(w.store, "identity", "identity_key"))
	if err != nil || identityKey == nil {
		panic("no identity")
	}
	return vfAccount{identity: *identityKey, id: r.RegistrationID, password: r.Password, uuid: c.UUID, tel: c.Tel, signaling: r.SignalingKey,
		profile: c.ProfileKey, name: c.Name, credential: c.ProfileKeyCredential, stored: b}
}

func vfSameAccount(w *vfSignup, a vfAccount) {
	vfAssert(identityKey != nil, "the client has an identity key")
	b := vfUsed(w)
	vfAssert(vfAnd(vfEq(a.identity.PublicKey.Key()[:], b.identity.PublicKey.Key()[:]), vfEq(a.identity.PrivateKey.Key()[:], b.identity.PrivateKey.Key()[:])), "the identity key stays the same")
	vfAssert(vfEq(a.stored, b.stored), "the stored identity key stays the same")
	vfAssert(a.id == b.id, "the registration id stays the same")
	vfAssert(a.password == b.password && a.uuid == b.uuid && a.tel == b.tel && a.name == b.name, "account, number, password and name stay the same")
	vfAssert(vfEq(a.signaling, b.signaling), "the signaling key stays the same")
	vfAssert(vfEq(a.profile, b.profile), "the profile key stays the same")
}

// A sender certificate that is valid for a long time.
func vfOldCertificate() string { return vfCertificate("old", vfFarAway) }

func vfCertificate(uuid string, expires uint64) string {
	c, err := proto.Marshal(&signalservice.SenderCertificate_Certificate{Expires: &expires, SenderUuid: vfStr2(uuid)})
	if err != nil {
		panic(err.Error())
	}
	b, err := proto.Marshal(&signalservice.ServerCertificate{Certificate: c})
	if err != nil {
		panic(err.Error())
	}
	return string(b)
}

const vfFarAway = 4000000000000

func vfStr2(s string) *string { return &s }

// vfRegistered is a registered client that has been stopped; what it used.
func vfRegistered() (*vfSignup, vfAccount) {
	w := vfNewSignup()
	w.start()
	w.stop()
	vfAssert(w.uploads == 1, "a client can register")
	// its credential has arrived
	config.ConfigFile.ProfileKeyCredential = []byte("credential for the profile key")
	vfAssert(saveConfig(config.ConfigFile) == nil, "settings can be saved")
	return w, vfUsed(w)
}

// A registered client starts again and again: what belongs to the account
// stays, in the store, the settings and in use.
//
//vf:fixedrand
func VC44_Again() {
	w, a := vfRegistered()
	for i := 0; i < 2; i++ {
		err := w.start()
		vfAssert(err == nil, "a registered client starts")
		vfAssert(w.verified == 1 && w.uploads == 1, "it does not register again")
		vfAssert(w.done > 0, "the application is told")
		vfSameAccount(w, a)
		vfAssert(vfEq(config.ConfigFile.ProfileKeyCredential, a.credential), "the credential for the profile key is kept")
		c, err := ReadConfig(w.conf)
		vfAssert(err == nil && c.UUID == a.uuid && c.Tel == a.tel && c.Name == a.name, "the settings are kept")
		vfAssert(vfEq(c.ProfileKey, a.profile), "the saved profile key is the one in use")
		vfAssert(vfEq(c.ProfileKeyCredential, a.credential), "the saved credential is the one in use")
		vfAssert(w.profiles > 0 && w.profileAuth == "Basic "+base64.StdEncoding.EncodeToString([]byte(a.uuid+":"+a.password)), "the client acts as the account")
		w.stop()
	}
	vfReach("again")
}

// A client without a profile key, or that registers again, gets a new one; the
// credential for another key is not kept.
//
//vf:fixedrand
func VC44_NewProfileKey() {
	w, a := vfRegistered()
	switch vfChoose("why", 2) {
	case 0:
		config.ConfigFile.ProfileKey = nil
		vfAssert(saveConfig(config.ConfigFile) == nil, "settings can be saved")
	case 1:
		vfAssert(os.RemoveAll(w.store) == nil, "the store is lost")
	}
	old := []byte(vfOldCertificate())
	config.ConfigFile.Certificate = old
	vfAssert(saveConfig(config.ConfigFile) == nil, "settings can be saved")
	w.start()
	if w.uploads == 2 {
		vfAssert(!bytes.Equal(config.ConfigFile.Certificate, old), "a certificate for another registration is not used")
	}
	c, err := ReadConfig(w.conf)
	vfAssert(err == nil && len(c.ProfileKey) == 32, "the account has a profile key")
	vfAssert(!bytes.Equal(c.ProfileKey, a.profile), "the profile key is a new one")
	vfAssert(bytes.Equal(config.ConfigFile.ProfileKey, c.ProfileKey), "the saved profile key is the one in use")
	vfAssert(!bytes.Equal(c.ProfileKeyCredential, a.credential), "a credential for another profile key is not kept")
	vfAssert(!bytes.Equal(config.ConfigFile.ProfileKeyCredential, a.credential), "a credential for another profile key is not used")
	w.stop()
	vfReach("new")
}

// A new profile key that cannot be saved is not used.
//
//vf:fixedrand
func VC44_Unsaved() {
	w, _ := vfRegistered()
	config.ConfigFile.ProfileKey = nil
	vfAssert(saveConfig(config.ConfigFile) == nil, "settings can be saved")
	w.fail = "settings kept later"
	n := w.profiles
	err := w.start()
	vfAssert(err != nil, "settings that cannot be saved are reported")
	vfAssert(w.profiles == n, "no profile is uploaded under a key that is not saved")
	w.stop()
	w.unblock()
	w.fail = ""
	vfAssert(w.start() == nil || w.profiles > n, "a start with the settings back goes on")
	c, err := ReadConfig(w.conf)
	vfAssert(err == nil && len(c.ProfileKey) == 32, "the account has a profile key")
	vfAssert(bytes.Equal(config.ConfigFile.ProfileKey, c.ProfileKey), "the saved profile key is the one in use")
	w.stop()
	vfReach("reported")
}

// A client that registers again stops at any moment: nothing of the earlier
// registration is used or kept by the next start.
//
//vf:fixedrand
func VC44_Interrupted() {
	w, a := vfRegistered()
	old := []byte(vfOldCertificate())
	config.ConfigFile.Certificate = old
	vfAssert(saveConfig(config.ConfigFile) == nil, "settings can be saved")
	vfAssert(os.RemoveAll(w.store) == nil, "the store is lost")
	if vfCrash(func() { w.start() }) {
		vfReach("interrupted")
	}
	w.stop()
	w.start()
	vfAssert(w.uploads >= 2, "the client registers again")
	c, err := ReadConfig(w.conf)
	vfAssert(err == nil && len(c.ProfileKey) == 32, "the account has a profile key")
	vfAssert(!bytes.Equal(c.ProfileKey, a.profile), "the profile key is a new one")
	vfAssert(bytes.Equal(config.ConfigFile.ProfileKey, c.ProfileKey), "the saved profile key is the one in use")
	vfAssert(!bytes.Equal(config.ConfigFile.ProfileKeyCredential, a.credential), "a credential for another profile key is not used")
	vfAssert(!bytes.Equal(config.ConfigFile.Certificate, old), "a certificate for another registration is not used")
	w.stop()
	vfReach("new")
}

// What belongs to the account cannot be read: the start fails, and does not
// replace it or register again.
//
//vf:fixedrand
func VC44_Unreadable() {
	w, a := vfRegistered()
	names := []string{"identity_key", "regid", "http_password", "http_signaling_key"}
	f := filepath.Join(w.store, "identity", names[vfChoose("file", len(names))])
	was, err := os.ReadFile(f)
	vfAssert(err == nil, "it is stored")
	switch vfChoose("how", 2) {
	case 0:
		vfAssert(os.Remove(f) == nil, "it is gone")
	case 1:
		vfAssert(os.Rename(f, f+".lost") == nil && os.Mkdir(f, 0700) == nil, "it cannot be read")
	}
	vfAssert(w.start() != nil, "a start without what belongs to the account is refused")
	vfAssert(w.verified == 1 && w.uploads == 1, "it does not register again")
	w.stop()
	vfAssert(os.RemoveAll(f) == nil && os.WriteFile(f, was, 0600) == nil, "it is back")
	vfAssert(w.start() == nil, "then the client starts")
	vfSameAccount(w, a)
	w.stop()
	vfReach("refused")
}

// An encrypted store is not opened with another password, and nothing in it
// changes.
//
//vf:fixedrand
func VC44_Password() {
	w := vfNewSignup()
	c, err := ReadConfig(w.conf)
	vfAssert(err == nil, "the settings can be read")
	c.UnencryptedStorage = false
	how := vfChoose("password", 2)
	if how == 0 {
		c.StoragePassword = "secret"
	} else {
		w.secret = "secret"
	}
	vfAssert(WriteConfig(w.conf, c) == nil, "settings can be saved")
	vfAssert(os.MkdirAll(w.store, 0700) == nil && os.WriteFile(filepath.Join(w.store, "salt"), []byte("saltsalt"), 0600) == nil, "the salt is known")
	w.start()
	w.stop()
	vfAssert(w.uploads == 1, "a client can register")
	config.ConfigFile.ProfileKeyCredential = []byte("credential")
	a := vfUsed(w)
	c = config.ConfigFile
	c.StoragePassword, w.secret = "", "guess"
	vfAssert(saveConfig(c) == nil, "settings can be saved")
	vfAssert(w.start() != nil, "a start with another password is refused")
	vfAssert(w.verified == 1 && w.uploads == 1, "it does not register again")
	vfAssert(w.done == 0, "the application is not told that it is registered")
	w.stop()
	w.secret = "secret"
	vfAssert(w.start() == nil, "the right password opens the store")
	vfSameAccount(w, a)
	w.stop()
	vfReach("opened")
}

// What a start obtains is saved and used until it expires: a certificate is
// fetched when there is none or it has expired, and the user is asked for a
// name once.
//
//vf:fixedrand
func VC44_Kept() {
	w, a := vfRegistered()
	fresh := []byte(vfCertificate("fresh", vfFarAway))
	has := vfChoose("has", 4)
	had := [][]byte{nil, []byte(vfCertificate("expired", 1000)), []byte(vfOldCertificate()), {0xff}}[has]
	config.ConfigFile.Certificate = had
	named := vfChoose("named", 2) == 1
	if !named {
		config.ConfigFile.Name = ""
	}
	vfAssert(saveConfig(config.ConfigFile) == nil, "settings can be saved")
	w.certificate = fresh
	n := w.certificates
	for i := 0; i < 2; i++ {
		vfAssert(w.start() == nil, "a registered client starts")
		c, err := ReadConfig(w.conf)
		vfAssert(err == nil, "the settings can be read")
		want := fresh
		if has == 2 {
			want = had
		}
		vfAssert(vfEq(config.ConfigFile.Certificate, want), "a certificate that is missing or expired is replaced, others are used")
		vfAssert(vfEq(c.Certificate, want), "the certificate in use is saved")
		vfAssert(w.certificates == n || has != 2 && w.certificates == n+1, "it is fetched once")
		vfAssert(config.ConfigFile.Name == "Alice" && c.Name == "Alice", "the name is saved")
		vfSame := a
		vfSame.name = "Alice"
		vfSameAccount(w, vfSame)
		w.stop()
	}
	vfReach("kept")
}

// Every part of the service is addressed as the account.
//
//vf:fixedrand
func VC44_Services() {
	w, a := vfRegistered()
	if vfChoose("again", 2) == 1 {
		vfAssert(os.RemoveAll(w.store) == nil, "the store is lost")
	}
	w.start()
	if w.uploads == 1 {
		vfSameAccount(w, a)
	}
	s := &transport.VfServer{Answer: func(r *transport.VfReq) transport.VfAnswer { return transport.VfAnswer{Status: 200} }}
	transport.VfTake(s)
	transport.Transport.Get("/a")
	transport.CdnTransport.Get("/a")
	transport.DirectoryTransport.Get("/a")
	transport.StorageTransport.Get("/a")
	transport.ServiceTransport.Get("/a")
	auth := "Basic " + base64.StdEncoding.EncodeToString([]byte(w.uuid+":"+w.password))
	vfAssert(len(s.Log) == 5, "all parts are reachable")
	for i, r := range s.Log {
		vfAssert(r.Header.Get("Authorization") == auth, "the client acts as the account")
		to := []string{config.ConfigFile.Server, SIGNAL_CDN2_URL, DIRECTORY_URL, STORAGE_URL, SIGNAL_SERVICE_URL}[i]
		vfAssert(r.URL == to+"/a", "each part is addressed by its own address")
	}
	w.stop()
	vfReach("asked")
}
