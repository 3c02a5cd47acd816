package textsecure

//vf:use store

import (
	"bytes"
	"path/filepath"

	"github.com/signal-golang/textsecure/config"
)

// C40: an interrupted save keeps what was saved before.

func vfSettings(i int) *config.Config {
	return &config.Config{Tel: []string{"+491", "+4922"}[i], UUID: vfPeer, ProfileKey: vfBytes([]string{"key0", "key1"}[i], 32),
		StorageDir: ".storage", AlwaysTrustPeerID: vfBool([]string{"trust0", "trust1"}[i]), LogLevel: []string{"info", ""}[i]}
}

func vfSameSettings(a, b *config.Config) bool {
	if a == nil || a.Tel != b.Tel || a.UUID != b.UUID || a.LogLevel != b.LogLevel {
		return false
	}
	return vfAnd(vfEq(a.ProfileKey, b.ProfileKey), a.AlwaysTrustPeerID == b.AlwaysTrustPeerID)
}

// The client stops while it saves its settings: after a restart they are the
// complete earlier or the complete new ones.
func VC40_Settings() {
	f := filepath.Join(vfTempDir(), "config.yml")
	a, b := vfSettings(0), vfSettings(1)
	vfAssert(WriteConfig(f, a) == nil, "settings can be saved")
	got, err := ReadConfig(f)
	vfAssert(err == nil, "saved settings can be read")
	vfAssert(vfSameSettings(got, a), "saved settings can be read")
	how := vfChoose("how", 2)
	crashed := vfCrash(func() {
		err := error(nil)
		if how == 0 {
			err = WriteConfig(f, b)
		} else {
			err = saveConfig(b)
		}
		if err != nil {
			panic("saving fails")
		}
	})
	got, err = ReadConfig(f)
	vfAssert(err == nil, "the settings can be read after an interrupted save")
	if crashed {
		vfAssert(vfOr(vfSameSettings(got, a), vfSameSettings(got, b)), "the settings are the complete old or the complete new ones")
		vfReach("interrupted")
	} else {
		vfAssert(vfSameSettings(got, b), "a completed save is read")
		vfReach("completed")
	}
	vfAssert(WriteConfig(f, b) == nil, "settings can be saved after an interrupted save")
	got, err = ReadConfig(f)
	vfAssert(err == nil, "and read")
	vfAssert(vfSameSettings(got, b), "and read")
}

func vfLegacyGroup(i int) *Group {
	id := bytes.Repeat([]byte{byte(i + 1)}, 16)
	name := vfBytes([]string{"title", "other"}[i], 4+i)
	for _, c := range name {
		vfAssume(vfAnd(c >= 'a', c <= 'z'))
	}
	return &Group{ID: id, Hexid: idToHex(id), Name: string(name), Avatar: vfBytes([]string{"av0", "av1"}[i], 3), Members: []string{"+491", "+492", "+493"}[i:]}
}

func vfSameGroup(a, b *Group) bool {
	if a == nil || string(a.ID) != string(b.ID) || a.Hexid != b.Hexid || len(a.Members) != len(b.Members) {
		return false
	}
	for i := range a.Members {
		if a.Members[i] != b.Members[i] {
			return false
		}
	}
	return vfAnd(vfEq([]byte(a.Name), []byte(b.Name)), vfEq(a.Avatar, b.Avatar))
}

// The client stops while it saves a group: after a restart exactly the groups
// saved are known, each being the complete earlier or the complete new one.
func VC40_Group() {
	dir := vfTempDir()
	vfOpen(dir, "")
	config.ConfigFile.StorageDir = dir
	vfAssert(setupGroups() == nil, "groups can be set up")
	groups = map[string]*Group{}
	other, old := vfLegacyGroup(1), vfLegacyGroup(0)
	now := &Group{ID: old.ID, Hexid: old.Hexid, Name: "n", Members: []string{"+499"}}
	had := vfChoose("had", 2) == 1
	groups[other.Hexid] = other
	vfAssert(saveGroup(other.Hexid) == nil, "a group can be saved")
	if had {
		groups[old.Hexid] = old
		vfAssert(saveGroup(old.Hexid) == nil, "a group can be saved")
	}
	crashed := vfCrash(func() {
		groups[now.Hexid] = now
		if saveGroup(now.Hexid) != nil {
			panic("saving fails")
		}
	})
	groups = map[string]*Group{}
	vfAssert(setupGroups() == nil, "groups can be set up after an interrupted save")
	g := groups[now.Hexid]
	if crashed {
		vfAssert(vfOr(vfSameGroup(g, now), vfAnd(had, vfSameGroup(g, old)), vfAnd(!had, g == nil)), "the group is the complete old or the complete new one")
		vfReach("interrupted")
	} else {
		vfAssert(vfSameGroup(g, now), "a completed save is read")
		vfReach("completed")
	}
	vfAssert(vfSameGroup(groups[other.Hexid], other), "other groups are as they were")
	vfAssert(len(groups) == 2 || !had && g == nil && len(groups) == 1, "exactly the saved groups are known")
}
