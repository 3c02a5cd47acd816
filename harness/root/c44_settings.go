package textsecure

import (
	"path/filepath"

	"github.com/signal-golang/textsecure/config"
)

func vfLower(name string, n int) string {
	b := vfBytes(name, n)
	for _, c := range b {
		vfAssume(vfAnd(c >= 'a', c <= 'z'))
	}
	return string(b)
}

func vfAllSettings() *config.Config {
	c := &config.Config{Tel: "+" + vfLower("tel", 4), UUID: "9d0652a3-dcc3-4d11-975f-74d61598733f", Server: vfLower("server", 3), RootCA: vfLower("ca", 3),
		ProxyServer: vfLower("proxy", 3), VerificationType: vfLower("type", 3), StorageDir: vfLower("dir", 3), UnencryptedStorage: vfBool("plain"),
		StoragePassword: vfLower("password", 3), LogLevel: vfLower("log", 3), UserAgent: vfLower("agent", 3), AlwaysTrustPeerID: vfBool("trust"),
		DiscoverableByPhoneNumber: vfBool("discoverable"), ProfileKey: vfBytes("key", 32), ProfileKeyCredential: vfBytes("credential", 5), Name: vfLower("name", 4),
		UnidentifiedAccessKey: vfBytes("access", 16), Certificate: vfBytes("certificate", 5), CrayfishSupport: vfBool("crayfish")}
	a := &c.AccountCapabilities
	for i, p := range []*bool{&a.Gv2, &a.SenderKey, &a.AnnouncementGroup, &a.ChangeNumber, &a.Stories, &a.GiftBadges, &a.Storage, &a.Gv1Migration} {
		*p = vfBool("cap" + string([]byte{byte('a' + i)}))
	}
	c.Group.MaxGroupSize = vfInt("size", 0, 2000)
	c.Group.MaxGroupTitleLengthBytes = vfInt("title", 0, 2000)
	c.Group.MaxGroupDescriptionLengthBytes = vfInt("description", 0, 2000)
	c.Group.ExternalServiceSecret = vfLower("secret", 3)
	return c
}

// vfEqualSettings compares everything but the name.
func vfEqualSettings(a, b *config.Config) bool {
	ok := vfAnd(vfEq([]byte(a.Tel), []byte(b.Tel)), vfEq([]byte(a.UUID), []byte(b.UUID)), vfEq([]byte(a.Server), []byte(b.Server)), vfEq([]byte(a.RootCA), []byte(b.RootCA)),
		vfEq([]byte(a.ProxyServer), []byte(b.ProxyServer)), vfEq([]byte(a.VerificationType), []byte(b.VerificationType)), vfEq([]byte(a.StorageDir), []byte(b.StorageDir)),
		a.UnencryptedStorage == b.UnencryptedStorage, vfEq([]byte(a.StoragePassword), []byte(b.StoragePassword)), vfEq([]byte(a.LogLevel), []byte(b.LogLevel)),
		vfEq([]byte(a.UserAgent), []byte(b.UserAgent)), a.AlwaysTrustPeerID == b.AlwaysTrustPeerID, a.DiscoverableByPhoneNumber == b.DiscoverableByPhoneNumber,
		vfEq(a.ProfileKey, b.ProfileKey), vfEq(a.ProfileKeyCredential, b.ProfileKeyCredential), vfEq(a.UnidentifiedAccessKey, b.UnidentifiedAccessKey),
		vfEq(a.Certificate, b.Certificate), a.CrayfishSupport == b.CrayfishSupport)
	x, y := a.AccountCapabilities, b.AccountCapabilities
	ok = vfAnd(ok, x.Gv2 == y.Gv2, x.SenderKey == y.SenderKey, x.AnnouncementGroup == y.AnnouncementGroup, x.ChangeNumber == y.ChangeNumber,
		x.Stories == y.Stories, x.GiftBadges == y.GiftBadges, x.Storage == y.Storage, x.Gv1Migration == y.Gv1Migration)
	return vfAnd(ok, a.Group.MaxGroupSize == b.Group.MaxGroupSize, a.Group.MaxGroupTitleLengthBytes == b.Group.MaxGroupTitleLengthBytes,
		a.Group.MaxGroupDescriptionLengthBytes == b.Group.MaxGroupDescriptionLengthBytes, vfEq([]byte(a.Group.ExternalServiceSecret), []byte(b.Group.ExternalServiceSecret)))
}

// All settings are kept as they are, whatever is saved because of one of them.
func VC44_Settings() {
	f := filepath.Join(vfTempDir(), "config.yml")
	want := vfAllSettings()
	name := want.Name
	vfAssert(WriteConfig(f, want) == nil, "settings can be saved")
	c, err := ReadConfig(f)
	vfAssert(err == nil && vfEqualSettings(c, want), "settings are read as they were saved")
	config.ConfigFile = c
	client = &Client{GetConfig: func() (*config.Config, error) { return ReadConfig(f) }}
	switch vfChoose("then", 3) {
	case 0:
	case 1:
		name = vfLower("new", 5)
		SetUsername(name)
		vfAssert(vfEq([]byte(config.ConfigFile.Name), []byte(name)), "a new name is used")
	case 2:
		RefreshConfig()
	}
	got, err := ReadConfig(f)
	vfAssert(err == nil, "settings can be read again")
	vfAssert(vfEq([]byte(got.Name), []byte(name)), "the name is the one set last")
	vfAssert(vfEqualSettings(got, want), "and everything else is as it was")
	vfReach("kept")
}
