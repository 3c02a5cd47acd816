package groupsv2

//vf:use served

import (
	"bytes"

	"github.com/golang/protobuf/proto"
	"github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
)

func vfHas(g *GroupV2, ids ...int) bool {
	if g.DecryptedGroup == nil || len(g.DecryptedGroup.Members) != len(ids) {
		return false
	}
	for k, i := range ids {
		m := g.DecryptedGroup.Members[k]
		if string(m.Uuid) != string(vfID(i)) || string(m.ProfileKey) != string(vfProfileKey(i)) {
			return false
		}
	}
	return true
}

// A message about a group, with or without a change the server signed, while
// the server has the group at some revision or does not answer.
//
//vf:fixedrand
func VC38_Served() {
	s := vfServe(vfKey())
	hexid := idToHex(vfKey())
	known := vfChoose("known", 2) == 1
	if known {
		vfStored(hexid, vfKey())
	}
	in := vfChoose("a member", 2) == 1
	people := []int{1}
	if in {
		people = []int{1, 0}
	}
	s.group = s.state("now", 2, people...)
	serves := false
	switch vfChoose("server", 6) {
	case 0:
		serves = true
	case 1:
		s.status = []int{403, 404, 500}[vfChoose("status", 3)]
	case 2:
		s.raw = []byte{0xff}
	case 3: // a title which is none
		s.group.Title[3] ^= 1
	case 4: // the group of others
		s.group.Title = vfSealer(bytes.Repeat([]byte{9}, 32)).blob("now")
	case 5: // an empty answer
		s.raw = []byte{}
	}
	rev := uint32(1 + vfChoose("revision", 2))
	gc := &signalservice.GroupContextV2{MasterKey: vfKey(), Revision: &rev}
	change := vfChoose("change", 4)
	if change > 0 {
		a, err := proto.Marshal(&signalservice.GroupChange_Actions{Revision: rev, DeleteMembers: []*signalservice.GroupChange_Actions_DeleteMemberAction{{DeletedUserId: s.id(2)}}})
		vfMust(err)
		c := &signalservice.GroupChange{Actions: a, ServerSignature: s.sign(a)}
		switch change {
		case 2: // signed by someone else
			o, err := zkgroup.GenerateServerSecretParamsDeterministic(bytes.Repeat([]byte{1}, 32))
			vfMust(err)
			sig, err := o.SignDeterministic(make([]byte, 32), a)
			vfMust(err)
			c.ServerSignature = sig
		case 3: // about something else
			c.Actions = append([]byte{}, a...)
			c.Actions[len(a)-1] ^= 1
		}
		gc.GroupChange, err = proto.Marshal(c)
		vfMust(err)
	}
	g, err := HandleGroupsV2(vfMe, &signalservice.DataMessage{GroupV2: gc})
	vfAssert(s.refused == 0, "requests carry the user's credential for the group")
	if change > 1 {
		vfAssert(err != nil, "a change the server did not sign is refused")
		vfReach("unsigned")
		return
	}
	vfAssert(err == nil, "the message is accepted")
	if err != nil {
		return
	}
	vfAssert(g.Hexid == hexid && string(g.MasterKey) == string(vfKey()), "the message's group is the one it names")
	if change == 1 {
		c := g.GroupAction
		vfAssert(c != nil && c.Revision == rev && len(c.DeleteMembers) == 1 && string(c.DeleteMembers[0]) == string(vfID(2)), "a signed change is handed over")
		vfReach("signed")
	} else {
		vfAssert(g.GroupAction == nil, "without a change none is handed over")
	}
	if serves && (!known || change == 1 || rev != 1) {
		vfAssert(vfHas(g, people...), "the members are those the server tells")
		vfAssert(g.DecryptedGroup != nil && g.DecryptedGroup.Title == "now" && g.DecryptedGroup.Revision == 2, "the group is the one the server has")
		vfAssert((g.JoinStatus == GroupV2JoinsStatusMember) == in, "the user is a member if listed")
		f, err := loadGroupV2(hexid)
		vfAssert(err == nil && vfHas(f, people...) && f.DecryptedGroup.Title == "now" && f.DecryptedGroup.Revision == 2, "and is stored so")
		vfReach("updated")
	} else if known {
		vfAssert(g.DecryptedGroup != nil && g.DecryptedGroup.Title == "g07" && g.DecryptedGroup.Revision == 1, "a group which cannot be fetched stays as it was")
		f, err := loadGroupV2(hexid)
		vfAssert(err == nil && f.DecryptedGroup != nil && f.DecryptedGroup.Title == "g07", "and so it does in the store")
		vfReach("kept")
	}
}

// Accepting an invitation.
//
//vf:fixedrand
func VC38_Join() {
	s := vfServe(vfKey())
	hexid := idToHex(vfKey())
	config.ConfigFile.ProfileKey = vfProfileKey(0)
	rev := uint32(1 + vfChoose("revision", 3))
	s.group = s.state("now", rev, 1)
	invited := [][]int{{}, {0}, {2}, {2, 0}, {0, 2}}[vfChoose("invited", 5)]
	asked := false
	for _, i := range invited {
		asked = asked || i == 0
		s.group.PendingMembers = append(s.group.PendingMembers, &signalservice.PendingMember{Member: &signalservice.Member{UserId: s.id(i), Role: signalservice.Member_DEFAULT}, AddedByUserId: s.id(1)})
	}
	if vfChoose("empty entry", 2) == 1 {
		s.group.PendingMembers = append([]*signalservice.PendingMember{{}}, s.group.PendingMembers...)
	}
	s.after = s.state("now", rev+1, 1, 0)
	cred := vfChoose("credential", 4)
	switch c := s.credential(); cred {
	case 0, 1:
		config.ConfigFile.ProfileKeyCredential = c
	case 2:
		config.ConfigFile.ProfileKeyCredential = c[:len(c)-1]
	}
	if cred == 1 {
		s.patch = []int{403, 409, 500}[vfChoose("status", 3)]
	}
	vfStored(hexid, vfKey())
	g := FindGroup(hexid)
	err := g.JoinGroup()
	vfAssert(s.refused == 0, "requests carry the user's credential for the group")
	if !asked || cred > 1 {
		vfAssert(err != nil && len(s.changes) == 0, "an invitation which cannot be accepted is not")
		vfAssert(g.JoinStatus != GroupV2JoinsStatusMember, "and the user is no member")
		vfReach("not invited")
		return
	}
	vfAssert(len(s.changes) == 1, "the server is told once")
	if len(s.changes) == 1 {
		c := s.changes[0]
		vfAssert(c.Revision == rev+1, "of the revision which follows")
		want, err := proto.Marshal(&signalservice.GroupChange_Actions{SourceUuid: c.SourceUuid, Revision: c.Revision, PromotePendingMembers: c.PromotePendingMembers})
		vfMust(err)
		got, err := proto.Marshal(c)
		vfMust(err)
		vfAssert(len(c.PromotePendingMembers) == 1 && string(want) == string(got), "of nothing but the acceptance")
		if len(c.PromotePendingMembers) == 1 {
			raw := c.PromotePendingMembers[0].Presentation
			pub, err := s.params.PublicParams()
			vfMust(err)
			vfAssert(len(raw) > 0 && zkgroup.NewServerZkProfileOperations(s.server).VerifyProfileKeyCredentialPresentation(pub, raw) == nil, "which proves the user's identity")
			p, err := zkgroup.NewProfileKeyCredentialPresentation(raw)
			vfMust(err)
			id, err := p.UUIDCiphertext()
			vfMust(err)
			key, err := p.ProfileKeyCiphertext()
			vfMust(err)
			vfAssert(string(id) == string(s.id(0)) && string(key) == string(s.profileKey(0)), "and tells the user's profile key")
		}
	}
	if s.patch != 200 {
		vfAssert(err != nil && g.JoinStatus != GroupV2JoinsStatusMember, "who is refused is no member")
		vfReach("refused")
		return
	}
	vfAssert(err == nil && g.JoinStatus == GroupV2JoinsStatusMember, "who is accepted is a member")
	vfAssert(vfHas(g, 1, 0) && g.DecryptedGroup.Revision == rev+1, "of the group as the server has it then")
	vfReach("joined")
}

// The members of a group are asked for: those the server tells now, or, when it
// cannot be asked, those known before; of a group which is not known, none.
//
//vf:fixedrand
func VC38_MembersOf() {
	s := vfServe(vfKey())
	hexid := idToHex(vfKey())
	kind := vfChoose("known", 4)
	if kind > 0 {
		vfStored(hexid, vfKey())
	}
	switch kind {
	case 2: // read before
		vfAssert(FindGroup(hexid) != nil, "a stored group is found")
	case 3: // never fetched
		groupsV2[hexid] = &GroupV2{MasterKey: vfKey(), Hexid: hexid}
		vfAssert(saveGroupV2(hexid) == nil, "a group can be saved")
		delete(groupsV2, hexid)
	}
	people := [][]int{{0}, {1, 0}, {2, 0, 1}}[vfChoose("people", 3)]
	s.group = s.state("now", 2, people...)
	serves, damaged := false, false
	switch vfChoose("server", 5) {
	case 0:
		serves = true
	case 1:
		s.status = []int{403, 404, 500}[vfChoose("status", 3)]
	case 2:
		s.raw = []byte{0xff}
	case 3: // the group of others
		s.group.Title = vfSealer(bytes.Repeat([]byte{9}, 32)).blob("now")
	case 4: // a member which is none
		s.group.Members[0].UserId[5] ^= 1
		damaged = true
	}
	m, err := GetGroupV2MembersForGroup(hexid)
	vfAssert(s.refused == 0, "requests carry the user's credential for the group")
	switch {
	case kind == 0:
		vfAssert(err != nil && len(m) == 0, "a group nobody knows is reported")
		vfAssert(len(s.Log) == 0, "and nothing is asked")
		vfReach("unknown")
	case serves:
		vfAssert(err == nil && vfHas(&GroupV2{DecryptedGroup: &signalservice.DecryptedGroup{Members: m}}, people...), "the members are those the server tells")
		groupsV2 = map[string]*GroupV2{}
		f := FindGroup(hexid)
		vfAssert(f != nil && vfHas(f, people...), "and are kept")
		vfReach("told")
	case damaged:
		vfAssert(len(m) < len(people) && vfHas(&GroupV2{DecryptedGroup: &signalservice.DecryptedGroup{Members: m}}, people[1:][:len(m)]...), "somebody who is none is not told")
		vfReach("left out")
	case kind == 3:
		vfAssert(err != nil, "a group which was never fetched has no members to tell")
		vfReach("none")
	default:
		g := FindGroup(hexid)
		vfAssert(err == nil && g.DecryptedGroup != nil && g.DecryptedGroup.Title == "g07" && len(m) == len(g.DecryptedGroup.Members), "the members known before are told")
		vfReach("before")
	}
}
