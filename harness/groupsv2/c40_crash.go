package groupsv2

//vf:use reset

import (
	"bytes"

	signalservice "github.com/signal-golang/textsecure/protobuf"
)

// C40: an interrupted save keeps what was saved before.

func vfOneGroup(b byte, title string, rev uint32) *GroupV2 {
	key := bytes.Repeat([]byte{b}, 32)
	return &GroupV2{Hexid: idToHex(key), MasterKey: key,
		DecryptedGroup: &signalservice.DecryptedGroup{Title: title, Revision: rev, Members: []*signalservice.DecryptedMember{{Uuid: bytes.Repeat([]byte{b}, 16)}}}}
}

func vfIsGroup(g, want *GroupV2) bool {
	if g == nil || g.DecryptedGroup == nil || string(g.MasterKey) != string(want.MasterKey) || len(g.DecryptedGroup.Members) != 1 || g.DecryptedGroup.Title != want.DecryptedGroup.Title {
		return false
	}
	return g.DecryptedGroup.Revision == want.DecryptedGroup.Revision
}

// The client stops while it saves a group: after a restart that group is the
// complete earlier or the complete new one, and others are as they were.
func VC40_GroupV2() {
	dir := vfTempDir()
	VfReset()
	SetupGroups(dir)
	old, other, now := vfOneGroup(1, "the title of before", vfU32("rev1")), vfOneGroup(2, "other", vfU32("rev2")), vfOneGroup(1, "new", vfU32("rev3"))
	had := vfChoose("had", 2) == 1
	groupsV2[other.Hexid] = other
	vfAssert(saveGroupV2(other.Hexid) == nil, "a group can be saved")
	if had {
		groupsV2[old.Hexid] = old
		vfAssert(saveGroupV2(old.Hexid) == nil, "a group can be saved")
	}
	crashed := vfCrash(func() {
		groupsV2[now.Hexid] = now
		if saveGroupV2(now.Hexid) != nil {
			panic("saving fails")
		}
	})
	VfReset()
	vfAssert(SetupGroups(dir) == nil, "groups can be set up after an interrupted save")
	g := FindGroup(now.Hexid)
	if crashed {
		vfAssert(vfOr(vfIsGroup(g, now), vfAnd(had, vfIsGroup(g, old)), vfAnd(!had, g == nil)), "the group is the complete old or the complete new one")
		vfReach("interrupted")
	} else {
		vfAssert(vfIsGroup(g, now), "a completed save is read")
		vfReach("completed")
	}
	vfAssert(vfIsGroup(FindGroup(other.Hexid), other), "other groups are as they were")
	groupsV2[now.Hexid] = now
	vfAssert(saveGroupV2(now.Hexid) == nil, "the group can be saved after an interrupted save")
	VfReset()
	vfAssert(vfIsGroup(FindGroup(now.Hexid), now), "and read")
}
