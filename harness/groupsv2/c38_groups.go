package groupsv2

//vf:use reset
//vf:use sealed
//vf:use transport/fake

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
	"gopkg.in/yaml.v2"
)

// C38: group data from outside is authentic and decrypted as it was meant.

func vfRole(name string) signalservice.Member_Role {
	return signalservice.Member_Role(vfInt(name, 0, 2))
}

// vfMember is a member as the server holds it; good tells whether it can be
// decrypted.
func vfMember(s *vfSealed, i int) (m *signalservice.Member, good bool) {
	m = &signalservice.Member{Role: vfRole("role"), JoinedAtRevision: vfU32("joined")}
	switch vfChoose("member", 6) {
	case 0:
		m.UserId, m.ProfileKey = s.id(i), s.profileKey(i)
		return m, true
	case 1:
		m.Presentation = s.presentation(i)
		return m, true
	case 2: // of another group
		m.UserId, m.ProfileKey = vfSealer(bytes.Repeat([]byte{9}, 32)).id(i), s.profileKey(i)
	case 3: // damaged
		m.UserId, m.ProfileKey = s.id(i), s.profileKey(i)
		m.UserId[1+vfChoose("byte", 2)*20] ^= 1 << vfChoose("bit", 8)
	case 4: // cut short; zkgroup ignores what follows an id
		m.UserId, m.ProfileKey = s.id(i)[:[]int{0, 1, 64}[vfChoose("length", 3)]], s.profileKey(i)
	case 5: // a presentation cut short
		m.Presentation = s.presentation(i)[:[]int{1, 493, 712}[vfChoose("length", 3)]]
	}
	return m, false
}

var vfTitles = []struct{ sent, shown string }{
	{"Friends", "Friends"}, {"", ""}, {"a\x00b\nc", "abc"}, {"\u00e4\u4e16\u754c", "\u00e4\u4e16\u754c"}, {"x\u202ey", "xy"}, {"a b", "a b"},
}

// The state of a group fetched from the server.
//
//vf:fixedrand
func VC38_State() {
	s := vfSealer(vfKey())
	config.ConfigFile = &config.Config{UUID: vfMe}
	g := &GroupV2{MasterKey: vfKey(), DecryptedGroup: &signalservice.DecryptedGroup{Title: "before"}, JoinStatus: -1}
	g.GroupContext.Revision = 1
	if vfChoose("cipher", 2) == 1 {
		g.cipher = s.cipher
	}
	access := signalservice.AccessControl_AccessRequired(vfInt("access", 0, 4))
	group := &signalservice.Group{Revision: vfU32("revision"), Avatar: "groups/x", AccessControl: &signalservice.AccessControl{Members: access}}
	n := vfChoose("members", 3+vfTier())
	var want []int
	for i := 0; i < n; i++ {
		m, good := &signalservice.Member{UserId: s.id(i), ProfileKey: s.profileKey(i)}, true
		if n != 1 {
			m, good = vfMember(s, i)
		}
		if good {
			want = append(want, i)
		}
		group.Members = append(group.Members, m)
	}
	title := vfTitles[0]
	bad := false
	titles := 0
	if n == 1 {
		titles = vfChoose("title", 4)
	}
	switch titles {
	case 0:
		if n == 1 {
			title = vfTitles[vfChoose("text", len(vfTitles))]
		}
		group.Title = s.blob(title.sent)
	case 1:
		bad = true
		group.Title = s.blob(title.sent)
		group.Title[vfChoose("byte", 2)*(len(group.Title)-2)] ^= 1 << vfChoose("bit", 8)
	case 2:
		bad = true
		group.Title = s.blob(title.sent)[:[]int{0, 1, 28, 29, 30, 33, 39}[vfChoose("length", 7)]]
	case 3:
		bad = true
		group.Title = vfSealer(bytes.Repeat([]byte{9}, 32)).blob(title.sent)
	}
	err := g.decryptGroupFromServer(group)
	if bad {
		vfAssert(err != nil, "a group whose title cannot be decrypted is refused")
		vfAssert(vfAnd(g.DecryptedGroup != nil && g.DecryptedGroup.Title == "before", g.GroupContext.Revision == 1), "and changes nothing")
		vfReach("refused")
		return
	}
	vfAssert(err == nil, "a group is accepted")
	d := g.DecryptedGroup
	vfAssert(d.Title == title.shown, "the title is the one sent, without control characters")
	vfAssert(vfAnd(d.Revision == group.Revision, d.AccessControl.GetMembers() == access), "the revision and the access rules are the group's")
	vfAssert(d.Avatar == "groups/x", "the avatar is the group's")
	vfAssert(len(d.Members) == len(want), "exactly the members that can be decrypted are members")
	in := false
	for k, i := range want {
		m, o := d.Members[k], group.Members[i]
		vfAssert(string(m.Uuid) == string(vfID(i)), "members are those the group names")
		vfAssert(string(m.ProfileKey) == string(vfProfileKey(i)), "with their profile keys")
		vfAssert(vfAnd(m.Role == o.Role, m.JoinedAtRevision == o.JoinedAtRevision), "and their roles")
		in = in || i == 0
	}
	vfAssert((g.JoinStatus == GroupV2JoinsStatusMember) == in, "the user is a member if listed")
	vfReach("accepted")
}

// The changes in a message, once their signature is found right.
//
//vf:fixedrand
func VC38_Change() {
	s := vfSealer(vfKey())
	g := &GroupV2{MasterKey: vfKey()}
	a := &signalservice.GroupChange_Actions{Revision: vfU32("revision")}
	var added, deleted []int
	var roles, pending []int
	var roles0 []signalservice.Member_Role
	switch vfChoose("kind", 5) {
	case 0:
		for i := vfChoose("added", 2); i >= 0; i-- {
			m, good := vfMember(s, i)
			if good {
				added = append(added, i)
				roles0 = append(roles0, m.Role)
			}
			a.AddMembers = append(a.AddMembers, &signalservice.GroupChange_Actions_AddMemberAction{Added: m})
		}
	case 1:
		for i := 0; i < 2; i++ {
			x := &signalservice.GroupChange_Actions_DeleteMemberAction{}
			switch vfChoose("deleted", 3) {
			case 0:
				x.DeletedUserId = s.id(i)
				deleted = append(deleted, i)
			case 1:
				x.DeletedUserId = s.id(i)
				x.DeletedUserId[1] ^= 1 << vfChoose("bit", 8)
			}
			a.DeleteMembers = append(a.DeleteMembers, x)
		}
	case 2:
		for i := 0; i < 2; i++ {
			x := &signalservice.GroupChange_Actions_ModifyMemberRoleAction{Role: vfRole("role")}
			switch vfChoose("role of", 3) {
			case 0:
				x.UserId = s.id(i)
				roles = append(roles, i)
			case 1:
				x.UserId = s.id(i)
				x.UserId[1] ^= 1 << vfChoose("bit", 8)
			}
			a.ModifyMemberRoles = append(a.ModifyMemberRoles, x)
		}
	case 3:
		x := &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{
			Member: &signalservice.Member{UserId: s.id(1), Role: vfRole("role")}, AddedByUserId: s.id(2), Timestamp: vfU64("time"),
		}}
		pending = append(pending, 1)
		a.AddPendingMembers = append(a.AddPendingMembers, x)
	case 4: // nothing in it
		a.AddMembers = []*signalservice.GroupChange_Actions_AddMemberAction{{}}
		a.DeleteMembers = []*signalservice.GroupChange_Actions_DeleteMemberAction{{}}
		a.ModifyMemberRoles = []*signalservice.GroupChange_Actions_ModifyMemberRoleAction{{}}
		a.AddPendingMembers = []*signalservice.GroupChange_Actions_AddPendingMemberAction{{}, {Added: &signalservice.PendingMember{}}}
		a.DeletePendingMembers = []*signalservice.GroupChange_Actions_DeletePendingMemberAction{{}}
		g.decryptGroupChangeActions(a)
		vfReach("answered")
		return
	}
	d := g.decryptGroupChangeActions(a)
	vfAssert(d != nil && d.Revision == a.Revision, "the change is decrypted")
	vfAssert(len(d.NewMembers) == len(added), "exactly the named members are added")
	for k, i := range added {
		vfAssert(string(d.NewMembers[k].Uuid) == string(vfID(i)), "members are those the change names")
		vfAssert(string(d.NewMembers[k].ProfileKey) == string(vfProfileKey(i)), "with their profile keys")
		vfAssert(d.NewMembers[k].Role == roles0[k], "and their roles")
	}
	vfAssert(len(d.DeleteMembers) == len(deleted), "exactly the named members are deleted")
	for k, i := range deleted {
		vfAssert(string(d.DeleteMembers[k]) == string(vfID(i)), "members are those the change names")
	}
	vfAssert(len(d.ModifyMemberRoles) == len(roles), "exactly the named members get roles")
	for k, i := range roles {
		vfAssert(string(d.ModifyMemberRoles[k].Uuid) == string(vfID(i)), "members are those the change names")
		vfAssert(d.ModifyMemberRoles[k].Role == a.ModifyMemberRoles[i].Role, "and get the named role")
	}
	vfAssert(len(d.NewPendingMembers) == len(pending), "exactly the named persons are invited")
	for k, i := range pending {
		p := d.NewPendingMembers[k]
		vfAssert(string(p.Uuid) == string(vfID(i)) && string(p.AddedByUuid) == string(vfID(2)), "persons are those the change names")
		vfAssert(vfAnd(p.Role == a.AddPendingMembers[k].Added.Member.Role, p.Timestamp == a.AddPendingMembers[k].Added.Timestamp), "with the named role")
	}
	vfReach("decrypted")
}

// vfGroups sets groups up in a fresh directory, with the stored ones, and with
// a server that has no credentials for the user.
func vfGroups(stored ...string) *vftransport.VfServer {
	VfReset()
	dir := vfTempDir()
	config.ConfigFile = &config.Config{UUID: vfMe, ProfileKey: make([]byte, 32)}
	vfMust(SetupGroups(dir))
	for _, hexid := range stored {
		b := []byte(nil)
		for i := 0; i < len(hexid); i += 2 {
			b = append(b, byte(strings.IndexByte("0123456789abcdef", hexid[i])<<4|strings.IndexByte("0123456789abcdef", hexid[i+1])))
		}
		vfStored(hexid, b)
	}
	s := &vftransport.VfServer{Answer: func(r *vftransport.VfReq) vftransport.VfAnswer { return vftransport.VfAnswer{Status: 404} }}
	vftransport.VfFake(s)
	return s
}

func vfStored(hexid string, key []byte) {
	g := &GroupV2{MasterKey: key, Hexid: hexid,
		DecryptedGroup: &signalservice.DecryptedGroup{Title: "g" + hexid[:2], Revision: 1},
		GroupAction:    &signalservice.DecryptedGroupChange{Revision: 5},
	}
	g.GroupContext.Title = []byte{1}
	b, err := yaml.Marshal(g)
	vfMust(err)
	vfMust(os.WriteFile(filepath.Join(groupV2Dir, hexid), b, 0600))
}

// vfVerifies tells whether the server's signature over actions is right.
func vfVerifies(actions, sig []byte) bool {
	if len(actions) == 0 || len(sig) == 0 {
		return false
	}
	b, err := base64.StdEncoding.DecodeString(config.ZKGROUP_SERVER_PUBLIC_PARAMS)
	vfMust(err)
	p, err := zkgroup.NewServerPublicParams(b)
	vfMust(err)
	return p.VerifySignature(actions, sig) == nil
}

// Changes are taken from messages only if the server signed them, and handed
// over with no other message.
//
//vf:fixedrand
func VC38_Signed() {
	hexid := idToHex(vfKey())
	vfGroups()
	known := vfChoose("known", 2) == 1
	if known {
		vfStored(hexid, vfKey())
	}
	rev := uint32(1 + vfChoose("revision", 2))
	gc := &signalservice.GroupContextV2{MasterKey: vfKey(), Revision: &rev}
	change := &signalservice.GroupChange{ChangeEpoch: uint32(vfChoose("epoch", 4))}
	carried := vfChoose("change", 2) == 1
	if carried {
		s := vfSealer(vfKey())
		if k := vfChoose("actions", 4); k > 0 {
			a := &signalservice.GroupChange_Actions{Revision: []uint32{0, 0, 2, 2}[k]}
			if k != 2 {
				a.DeleteMembers = []*signalservice.GroupChange_Actions_DeleteMemberAction{{DeletedUserId: s.id(1)}}
			}
			b, err := proto.Marshal(a)
			vfMust(err)
			change.Actions = b
		}
		switch vfChoose("signature", 5) {
		case 1:
			change.ServerSignature = make([]byte, 64)
		case 2:
			change.ServerSignature = bytes.Repeat([]byte{0xa5}, 64)
		case 3:
			change.ServerSignature = []byte{0}
		case 4: // of another server
			if len(change.Actions) > 0 {
				sig, err := s.server.SignDeterministic(make([]byte, 32), change.Actions)
				vfMust(err)
				change.ServerSignature = sig
			}
		}
		b, err := proto.Marshal(change)
		vfMust(err)
		gc.GroupChange = b
	}
	carried = len(gc.GroupChange) > 0
	g, err := HandleGroupsV2(vfMe, &signalservice.DataMessage{GroupV2: gc})
	if carried && !vfVerifies(change.Actions, change.ServerSignature) {
		vfAssert(err != nil || g.GroupAction == nil, "a change the server did not sign is not handed over")
		vfReach("unsigned")
		return
	}
	vfAssert(err == nil, "the message is accepted")
	if !carried {
		vfAssert(g.GroupAction == nil, "a message that carries no change hands none over")
		vfReach("no change")
	}
	vfAssert(g.Hexid == hexid && string(g.MasterKey) == string(vfKey()), "the message's group is the one it names")
	if known {
		vfAssert(g.DecryptedGroup != nil && g.DecryptedGroup.Title == "g07", "with what is known of it")
	}
}

// Each group is found under its own id, whichever were used before.
//
//vf:fixedrand
func VC38_Find() {
	ids := []string{idToHex(vfKey()), idToHex(bytes.Repeat([]byte{8}, 32)), idToHex(bytes.Repeat([]byte{9}, 32))}
	vfGroups(ids[:2]...)
	rev := uint32(1)
	for i := 0; i < 2+vfTier(); i++ {
		k := vfChoose("group", 3)
		var g *GroupV2
		if vfChoose("message", 2) == 1 && k < 2 {
			var err error
			key := bytes.Repeat([]byte{byte(7 + k)}, 32)
			g, err = HandleGroupsV2(vfMe, &signalservice.DataMessage{GroupV2: &signalservice.GroupContextV2{MasterKey: key, Revision: &rev}})
			vfAssert(err == nil, "the message is accepted")
		} else {
			g = FindGroup(ids[k])
		}
		if k == 2 {
			vfAssert(g == nil, "an unknown group is not found")
			continue
		}
		vfAssert(g != nil, "a known group is found")
		vfAssert(g.Hexid == ids[k] && g.DecryptedGroup.Title == "g"+ids[k][:2], "under its own id")
	}
	vfReach("found")
}

// A stored group is used only under its own id.
//
//vf:fixedrand
func VC38_Stored() {
	hexid := idToHex(vfKey())
	vfGroups()
	key := vfKey()
	switch vfChoose("stored", 4) {
	case 0:
		key[31] ^= 1
	case 1:
		key[0] ^= 1
	case 2:
		key = key[:31]
	case 3:
		key = nil
	}
	vfStored(hexid, key)
	if vfChoose("message", 2) == 0 {
		g := FindGroup(hexid)
		vfAssert(g == nil, "another group's data is not found under a group's id")
		vfReach("found")
		return
	}
	rev := uint32(1)
	g, err := HandleGroupsV2(vfMe, &signalservice.DataMessage{GroupV2: &signalservice.GroupContextV2{MasterKey: vfKey(), Revision: &rev}})
	vfAssert(err == nil && g.Hexid == hexid && string(g.MasterKey) == string(vfKey()), "a message's group is the one it names")
	vfAssert(g.DecryptedGroup.GetTitle() != "g07", "with nothing of another group")
	vfReach("message")
}

// Credentials are those of the day asked for, fetched again when the ones at
// hand are too old.
//
//vf:fixedrand
func VC38_Credentials() {
	s := vfGroups()
	day := int64(20000 + vfChoose("day", 3))
	have := vfChoose("at hand", 3)
	if have > 0 {
		Credentials = &GroupCredentials{}
		for i := 0; i < have; i++ {
			Credentials.Credentials = append(Credentials.Credentials, GroupCredential{Credential: []byte{byte(i)}, RedemptionTime: int64(20000 + i)})
		}
	}
	if have == 2 && vfChoose("order", 2) == 1 {
		a := Credentials.Credentials
		a[0], a[1] = a[1], a[0]
	}
	kind := vfChoose("answer", 4)
	s.Answer = func(r *vftransport.VfReq) vftransport.VfAnswer {
		switch kind {
		case 0:
			return vftransport.VfAnswer{Status: 403}
		case 1:
			return vftransport.VfAnswer{Status: 200, Body: []byte("{")}
		}
		return vftransport.VfAnswer{Status: 200, Body: []byte(fmt.Sprintf(`{"credentials":[{"credential":"AA==","redemptionTime":%d},{"credential":"Dw==","redemptionTime":%d}]}`, day+int64(2*kind-5), day))}
	}
	c, err := GetCredentialForRedemption(day)
	if int(day)-20000 < have {
		vfAssert(err == nil && c.RedemptionTime == day && c.Credential[0] == byte(day-20000), "a credential at hand is used")
		vfReach("at hand")
		return
	}
	vfAssert((err == nil) == (kind >= 2), "a missing credential is fetched")
	if err == nil {
		vfAssert(c.RedemptionTime == day && len(c.Credential) == 1 && c.Credential[0] == 15, "the fetched credential is that of the day")
		vfReach("fetched")
	}
}
