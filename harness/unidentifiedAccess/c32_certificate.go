package unidentifiedAccess

import (
	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
)

// C32: sender certificates are honoured only while valid.

// The time an expiry is compared with, in milliseconds as in the protocol.
func vfMillis() uint64 { return uint64(vfNow()) * 1000 }

// Any bytes are answered: with an error, unless an expiry can be read.
//
//vf:decisions=400
func VC32_Bytes() {
	b := vfBytes("certificate", vfChoose("length", 6+vfTier()))
	err := CheckCertificate(b)
	vfAssert(err != nil, "a certificate too short to hold an expiry is refused")
	vfReach("refused")
}

// The same inside a well-formed wrapper.
//
//vf:decisions=400
func VC32_Inner() {
	inner := vfBytes("inner", vfChoose("length", 6+vfTier()))
	b, err := proto.Marshal(&signalservice.SenderCertificate{Certificate: inner, Signature: make([]byte, vfChoose("signature", 2)*64)})
	if err != nil {
		panic(err.Error())
	}
	vfAssert(CheckCertificate(b) != nil, "a certificate too short to hold an expiry is refused")
	vfReach("refused")
}

// vfExpiry is any expiry, none within a minute of now, so that a slow run
// gives the same answer: any time within ten years from now, or any other.
func vfExpiry() uint64 {
	const decade = 10 * 365 * 86400 * 1000
	d := vfU64("expiry")
	switch vfChoose("expiry", 3) {
	case 0:
		vfAssume(vfAnd(d > 60000, d < decade))
		return vfMillis() + d
	case 1:
		vfAssume(vfAnd(d > 60000, d < decade))
		return vfMillis() - d
	}
	vfAssume(vfOr(d < vfMillis()-decade, d > vfMillis()+decade))
	return d
}

func vfCertificate() (b []byte, expiry *uint64) {
	c := &signalservice.SenderCertificate_Certificate{}
	if vfChoose("sender present", 2) == 1 {
		u := "9d0652a3-dcc3-4d11-975f-74d61598733f"
		c.SenderUuid = &u
	}
	if vfChoose("device present", 2) == 1 {
		d := vfU32("device")
		vfAssume(d < 1<<7)
		c.SenderDevice = &d
	}
	if vfChoose("key present", 2) == 1 {
		c.IdentityKey = vfBytes("key", 33)
	}
	if vfChoose("expiry present", 2) == 1 {
		e := vfExpiry()
		c.Expires = &e
	}
	inner, err := proto.Marshal(c)
	if err != nil {
		panic(err.Error())
	}
	out := &signalservice.SenderCertificate{Certificate: inner}
	if vfChoose("signature present", 2) == 1 {
		out.Signature = vfBytes("signature", 64)
	}
	b, err = proto.Marshal(out)
	if err != nil {
		panic(err.Error())
	}
	return b, c.Expires
}

// Certificates with any fields missing, any expiry and any cut.
func VC32_Expiry() {
	b, e := vfCertificate()
	err := CheckCertificate(b)
	if e == nil {
		vfAssert(err != nil, "a certificate without an expiry is refused")
		vfReach("no expiry")
		return
	}
	now := vfMillis()
	if err != nil {
		vfAssert(*e < now, "a certificate is honoured while valid")
		vfReach("refused")
		return
	}
	vfAssert(*e >= now, "an expired certificate is refused")
	vfReach("accepted")
}

// Certificates cut short or altered are answered: any cut, any bit.
func VC32_Damaged() {
	u, d, e := "9d0652a3-dcc3-4d11-975f-74d61598733f", uint32(1), vfMillis()+3600000
	c := &signalservice.SenderCertificate_Certificate{SenderUuid: &u, SenderDevice: &d, Expires: &e}
	if vfChoose("key", 2) == 1 {
		c.IdentityKey = make([]byte, 33)
	}
	inner, err := proto.Marshal(c)
	if err != nil {
		panic(err.Error())
	}
	b, err := proto.Marshal(&signalservice.SenderCertificate{Certificate: inner, Signature: make([]byte, 16)})
	if err != nil {
		panic(err.Error())
	}
	switch vfChoose("damage", 3) {
	case 0:
		b = b[:vfChoose("cut", len(b))]
	case 1:
		b[vfChoose("byte", len(b))] ^= 1 << vfChoose("bit", 8)
	case 2:
		b = append(b, vfBytes("more", 1+vfTier())...)
	}
	CheckCertificate(b)
	vfReach("answered")
}

// The certificate the client sends with its messages is one it would honour.
func VC32_Ours() {
	b, e := vfCertificate()
	switch vfChoose("config", 4) {
	case 1:
		b = nil
	case 2:
		b = b[:len(b)/2]
	case 3:
		b = []byte{0xff}
	}
	config.ConfigFile = &config.Config{Certificate: b, ProfileKey: make([]byte, 32)}
	good := CheckCertificate(b) == nil
	cert, err := GetOurCertificate()
	if err == nil {
		vfAssert(good, "a certificate that is not honoured is not used")
		vfAssert(len(cert) > 0, "there is a certificate")
		vfReach("used")
	} else {
		vfAssert(vfOr(!good, e == nil), "a valid certificate is used")
		vfReach("refused")
	}
	_, err2 := GetAccessForUUID(contacts.Contact{ProfileKey: make([]byte, 32)})
	vfAssert((err2 == nil) == (err == nil), "access needs a certificate that is honoured")
	_, err3 := GetAccessFor([]contacts.Contact{{}, {ProfileKey: make([]byte, 32)}})
	vfAssert((err3 == nil) == (err == nil), "access needs a certificate that is honoured")
}

// At any time the certificate that is used is the one the client holds then.
//
//vf:fixedrand
func VC32_OursReplaced() {
	now := vfMillis()
	u := "9d0652a3-dcc3-4d11-975f-74d61598733f"
	for i := 0; i < 3; i++ {
		d := uint32(i + 1)
		e := []uint64{now + 3600000, now - 3600000}[vfChoose("expired", 2)]
		inner, err := proto.Marshal(&signalservice.SenderCertificate_Certificate{SenderUuid: &u, SenderDevice: &d, Expires: &e})
		if err != nil {
			panic(err.Error())
		}
		b, err := proto.Marshal(&signalservice.SenderCertificate{Certificate: inner})
		if err != nil {
			panic(err.Error())
		}
		none := vfChoose("none", 2) == 1
		if none {
			b = nil
		}
		config.ConfigFile = &config.Config{Certificate: b, ProfileKey: make([]byte, 32)}
		cert, err := GetOurCertificate()
		vfAssert((err == nil) == (e > now && !none), "a certificate is used exactly while it is held and valid")
		vfAssert(err != nil || string(cert) == string(inner), "the certificate used is the one held")
		a, err := GetAccessForUUID(contacts.Contact{ProfileKey: make([]byte, 32)})
		vfAssert((err == nil) == (e > now && !none), "access needs the certificate held")
		_ = a
	}
	vfReach("replaced")
}
