package groupsv2

//vf:use reset
//vf:use sealed

import (
	"bytes"

	"github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/entities"
	signalservice "github.com/signal-golang/textsecure/protobuf"
)

// C29: group changes need the permission the group's rules demand.

const (
	vfNone = iota
	vfIn
	vfInvited
	vfAsking
)

const (
	vfDefault = signalservice.Member_DEFAULT
	vfAdmin   = signalservice.Member_ADMINISTRATOR
	vfAny     = signalservice.AccessControl_ANY
	vfMembers = signalservice.AccessControl_MEMBER
	vfAdmins  = signalservice.AccessControl_ADMINISTRATOR
)

// vfPerson is what a group says about somebody.
type vfPerson struct {
	id     []byte
	place  int
	role   signalservice.Member_Role
	key    []byte
	joined uint32
	by     []byte
}

// vfScene is a group as it should be. Person 0 makes the change.
type vfScene struct {
	key                       []byte
	people                    [3]vfPerson
	attributes, members, link signalservice.AccessControl_AccessRequired
	password                  []byte
	title, text, avatar       string
	announce                  bool
	revision                  uint32

	user  *entities.GroupUser
	given []byte // the password from the link followed
	here  bool   // whether the user acts in this group

	group  *GroupV2
	before *GroupV2
	apply  *GroupChangeApplicator

	validator *GroupValidator
}

func vfNewScene(ids func(int) []byte, key []byte, ops *zkgroup.ServerZkProfileOperations) *vfScene {
	s := &vfScene{
		key:        key,
		attributes: signalservice.AccessControl_AccessRequired(vfInt("attributes", 0, 4)),
		members:    signalservice.AccessControl_AccessRequired(vfInt("members", 0, 4)),
		link:       signalservice.AccessControl_AccessRequired(vfInt("link", 0, 4)),
		password:   []byte{5, 6},
		title:      "before", text: "text", avatar: "avatar",
		revision: 7,
		given:    vfBytes("password", 2)[:2*vfChoose("with password", 2)],
	}
	for i := range s.people {
		n := 4
		if i == 2 {
			n = 2
		}
		p := &s.people[i]
		p.id, p.place = ids(i), vfChoose("place", n)
		switch p.place {
		case vfIn:
			p.role, p.key, p.joined = signalservice.Member_Role(vfInt("role", 1, 2)), []byte{byte(i)}, 3
		case vfInvited:
			p.role, p.by = signalservice.Member_Role(vfInt("role", 1, 2)), []byte{99}
		case vfAsking:
			p.key = []byte{byte(i)}
		}
	}
	s.user = &entities.GroupUser{UserCiphertext: s.people[0].id, GroupPublicKey: append([]byte{}, key...)}
	mask := vfBytes("acts in another group", 1)
	s.user.GroupPublicKey[len(key)-1] ^= mask[0]
	s.here = mask[0] == 0
	s.group, s.before = s.build(), s.build()
	s.validator = NewGroupValidator(ops, &config.Config{})
	s.apply = NewGroupChangeApplicator(s.validator)
	return s
}

func vfPlain() *vfScene {
	return vfNewScene(func(i int) []byte { return bytes.Repeat([]byte{byte(i + 1)}, 16) }, bytes.Repeat([]byte{7}, 32), nil)
}

var vfOrder = []int{1, 0, 2}

func (s *vfScene) build() *GroupV2 {
	d := &signalservice.DecryptedGroup{Title: s.title, Description: s.text, Avatar: s.avatar, InviteLinkPassword: append([]byte{}, s.password...),
		AccessControl: &signalservice.AccessControl{Attributes: s.attributes, Members: s.members, AddFromInviteLink: s.link}}
	for _, i := range vfOrder {
		p := s.people[i]
		switch p.place {
		case vfIn:
			d.Members = append(d.Members, &signalservice.DecryptedMember{Uuid: p.id, Role: p.role, ProfileKey: p.key, JoinedAtRevision: p.joined})
		case vfInvited:
			d.PendingMembers = append(d.PendingMembers, &signalservice.DecryptedPendingMember{Uuid: p.id, Role: p.role, AddedByUuid: p.by})
		case vfAsking:
			d.RequestingMembers = append(d.RequestingMembers, &signalservice.DecryptedRequestingMember{Uuid: p.id, ProfileKey: p.key})
		}
	}
	return &GroupV2{MasterKey: s.key, DecryptedGroup: d, Revision: s.revision, AnnouncementsOnly: s.announce}
}

func (s *vfScene) member() bool { return s.here && s.people[0].place == vfIn }
func (s *vfScene) admin() bool {
	return vfAnd(s.people[0].role == vfAdmin, s.people[0].place == vfIn, s.here)
}

// holds tells whether the group is what it should be.
func (s *vfScene) holds(g *GroupV2) bool {
	d := g.DecryptedGroup
	ok := vfAnd(d.Title == s.title, d.Description == s.text, d.Avatar == s.avatar, vfEq(d.InviteLinkPassword, s.password),
		g.AnnouncementsOnly == s.announce, g.Revision == s.revision, vfEq(g.MasterKey, s.key), d.AccessControl.Attributes == s.attributes,
		d.AccessControl.Members == s.members, d.AccessControl.AddFromInviteLink == s.link)
	var n [4]int
	for _, p := range s.people {
		n[p.place]++
		found := false
		switch p.place {
		case vfIn:
			for _, m := range d.Members {
				if vfEq(m.Uuid, p.id) {
					found = true
					ok = vfAnd(ok, m.Role == p.role, vfEq(m.ProfileKey, p.key), m.JoinedAtRevision == p.joined)
				}
			}
		case vfInvited:
			for _, m := range d.PendingMembers {
				if vfEq(m.Uuid, p.id) {
					found = true
					ok = vfAnd(ok, m.Role == p.role, vfEq(m.AddedByUuid, p.by))
				}
			}
		case vfAsking:
			for _, m := range d.RequestingMembers {
				if vfEq(m.Uuid, p.id) {
					found = true
					ok = vfAnd(ok, vfEq(m.ProfileKey, p.key))
				}
			}
		default:
			found = true
		}
		ok = vfAnd(ok, found)
	}
	return vfAnd(ok, len(d.Members) == n[vfIn], len(d.PendingMembers) == n[vfInvited], len(d.RequestingMembers) == n[vfAsking])
}

// judge checks the outcome of a change that is to be made exactly if
// permitted, then doing what change does.
func (s *vfScene) judge(err error, permitted bool, change func()) {
	if err != nil {
		vfAssert(!permitted, "a change the rules permit is made")
		vfAssert(s.holds(s.group), "a refused change leaves the group as it was")
		vfReach("refused")
		return
	}
	vfAssert(permitted, "a change is made only with the permission the rules demand")
	change()
	vfAssert(s.holds(s.group), "a change alters exactly what it names")
	vfReach("made")
}

// vfTargets are the persons a change names; distinct tells whether nobody is
// named twice.
func vfTargets() (t []int, distinct bool) {
	n := 1 + vfChoose("named", 2)
	for i := 0; i < n; i++ {
		t = append(t, vfChoose("who", 3))
	}
	return t, n == 1 || t[0] != t[1]
}

// all tells whether all named are in the place.
func (s *vfScene) all(t []int, place int) bool {
	for _, i := range t {
		if s.people[i].place != place {
			return false
		}
	}
	return true
}

// Titles, descriptions, pictures and timers.
func VC29_Attributes() {
	s := vfPlain()
	allowed := vfAnd(s.member(), vfOr(s.attributes == vfAny, s.attributes == vfMembers, vfAnd(s.attributes == vfAdmins, s.admin())))
	text := vfString("text", 2*vfChoose("some", 2))
	switch vfChoose("attribute", 4) {
	case 0:
		err := s.apply.ApplyModifyTitle(s.user, s.given, s.group, &signalservice.GroupChange_Actions_ModifyTitleAction{Title: []byte(text)}, s.before)
		s.judge(err, vfAnd(allowed, len(text) > 0), func() { s.title = text })
	case 1:
		err := s.apply.ApplyModifyDescription(s.user, s.given, s.group, &signalservice.GroupChange_Actions_ModifyDescriptionAction{Description: []byte(text)}, s.before)
		s.judge(err, allowed, func() { s.text = text })
	case 2:
		err := s.apply.ApplyModifyAvatar(s.user, s.given, s.group, &signalservice.GroupChange_Actions_ModifyAvatarAction{Avatar: text}, s.before)
		s.judge(err, allowed, func() { s.avatar = text })
	case 3:
		err := s.apply.ApplyModifyDisappearingMessageTimer(s.user, s.given, s.group, &signalservice.GroupChange_Actions_ModifyDisappearingMessagesTimerAction{Timer: []byte(text)}, s.before)
		s.judge(err, allowed, func() {})
	}
}

// The rules themselves are for administrators.
func VC29_Rules() {
	s := vfPlain()
	access := signalservice.AccessControl_AccessRequired(vfInt("access", 0, 5))
	switch vfChoose("rule", 5) {
	case 0:
		err := s.apply.ApplyModifyAttributesAccess(s.user, s.given, s.group, &signalservice.GroupChange_Actions_ModifyAttributesAccessControlAction{AttributesAccess: access}, s.before)
		s.judge(err, vfAnd(s.admin(), vfOr(access == vfMembers, access == vfAdmins)), func() { s.attributes = access })
	case 1:
		err := s.apply.ApplyModifyMembersAccess(s.user, s.given, s.group, &signalservice.GroupChange_Actions_ModifyMembersAccessControlAction{MembersAccess: access}, s.before)
		s.judge(err, vfAnd(s.admin(), vfOr(access == vfMembers, access == vfAdmins)), func() { s.members = access })
	case 2:
		err := s.apply.ApplyModifyAddFromInviteLinkAccess(s.user, s.given, s.group, &signalservice.GroupChange_Actions_ModifyAddFromInviteLinkAccessControlAction{AddFromInviteLinkAccess: access}, s.before)
		s.judge(err, vfAnd(s.admin(), vfOr(access == vfAny, access == vfAdmins, access == signalservice.AccessControl_UNSATISFIABLE)), func() { s.link = access })
	case 3:
		password := vfBytes("new password", vfChoose("length", 3))
		err := s.apply.ApplyModifyInviteLinkPassword(s.user, s.given, s.group, &signalservice.GroupChange_Actions_ModifyInviteLinkPasswordAction{InviteLinkPassword: password}, s.before)
		s.judge(err, s.admin(), func() { s.password = password })
	case 4:
		on := vfBool("announcements only")
		err := s.apply.ApplyModifyAnnouncementsOnly(s.user, s.given, s.group, &signalservice.GroupChange_Actions_ModifyAnnouncementsOnlyAction{AnnouncementsOnly: on}, s.before)
		s.judge(err, s.admin(), func() { s.announce = on })
	}
}

func vfGrant() signalservice.Member_Role { return signalservice.Member_Role(vfInt("new role", 0, 2)) }

// Giving members roles.
func VC29_Roles() {
	s := vfPlain()
	t, distinct := vfTargets()
	permitted := vfAnd(s.admin(), distinct, s.all(t, vfIn))
	var roles []signalservice.Member_Role
	var a []*signalservice.GroupChange_Actions_ModifyMemberRoleAction
	for _, i := range t {
		r := vfGrant()
		roles = append(roles, r)
		permitted = vfAnd(permitted, r != signalservice.Member_UNKNOWN)
		a = append(a, &signalservice.GroupChange_Actions_ModifyMemberRoleAction{UserId: s.people[i].id, Role: r})
	}
	err := s.apply.ApplyModifyMemberRoles(s.user, s.given, s.group, a, s.before)
	s.judge(err, permitted, func() {
		for k, i := range t {
			s.people[i].role = roles[k]
		}
	})
}

// Adding members, and joining by link.
func VC29_Add() {
	s := vfPlain()
	t, distinct := vfTargets()
	adds := vfAnd(s.member(), vfOr(s.admin(), s.members == vfMembers, s.members == vfAny))
	joins := vfAnd(s.here, s.people[0].place != vfIn, len(t) == 1, t[0] == 0,
		vfOr(s.members == vfAny, vfAnd(s.link == vfAny, vfEq(s.given, s.password))))
	permitted := vfAnd(vfOr(adds, joins), distinct)
	var roles []signalservice.Member_Role
	var a []*signalservice.GroupChange_Actions_AddMemberAction
	for _, i := range t {
		r := vfGrant()
		roles = append(roles, r)
		permitted = vfAnd(permitted, s.people[i].place != vfIn, vfOr(r == vfDefault, vfAnd(r == vfAdmin, s.admin())))
		a = append(a, &signalservice.GroupChange_Actions_AddMemberAction{Added: &signalservice.Member{UserId: s.people[i].id, Role: r, ProfileKey: []byte{byte(50 + i)}}})
	}
	err := s.apply.ApplyAddMembers(s.user, s.given, s.group, a, s.before)
	s.judge(err, permitted, func() {
		for k, i := range t {
			p := &s.people[i]
			p.place, p.role, p.key, p.joined = vfIn, roles[k], []byte{byte(50 + i)}, s.revision+1
		}
	})
}

// Removing and leaving.
func VC29_Remove() {
	s := vfPlain()
	t, distinct := vfTargets()
	var err error
	place := 1 + vfChoose("from", 3)
	switch place {
	case vfIn:
		var a []*signalservice.GroupChange_Actions_DeleteMemberAction
		for _, i := range t {
			a = append(a, &signalservice.GroupChange_Actions_DeleteMemberAction{DeletedUserId: s.people[i].id})
		}
		err = s.apply.ApplyDeleteMembers(s.user, s.given, s.group, a, s.before)
	case vfInvited:
		var a []*signalservice.GroupChange_Actions_DeletePendingMemberAction
		for _, i := range t {
			a = append(a, &signalservice.GroupChange_Actions_DeletePendingMemberAction{DeletedUserId: s.people[i].id})
		}
		err = s.apply.ApplyDeleteMembersPendingProfileKey(s.user, s.given, s.group, a, s.before)
	case vfAsking:
		var a []*signalservice.GroupChange_Actions_DeleteRequestingMemberAction
		for _, i := range t {
			a = append(a, &signalservice.GroupChange_Actions_DeleteRequestingMemberAction{DeletedUserId: s.people[i].id})
		}
		err = s.apply.ApplyDeleteMembersPendingAdminApproval(s.user, s.given, s.group, a, s.before)
	}
	allowed := vfOr(s.admin(), vfAnd(s.here, len(t) == 1, t[0] == 0))
	s.judge(err, vfAnd(allowed, distinct, s.all(t, place)), func() {
		for _, i := range t {
			s.people[i].place = vfNone
		}
	})
}

// Inviting people.
func VC29_Invite() {
	s := vfPlain()
	t, distinct := vfTargets()
	permitted := vfAnd(s.member(), vfOr(s.admin(), s.members == vfMembers, s.members == vfAny), distinct)
	asking := false
	var roles []signalservice.Member_Role
	var a []*signalservice.GroupChange_Actions_AddPendingMemberAction
	for _, i := range t {
		r := vfGrant()
		roles = append(roles, r)
		asking = asking || s.people[i].place == vfAsking
		permitted = vfAnd(permitted, s.people[i].place != vfIn, s.people[i].place != vfInvited, vfOr(r == vfDefault, vfAnd(r == vfAdmin, s.admin())))
		a = append(a, &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{Member: &signalservice.Member{UserId: s.people[i].id, Role: r}}})
	}
	err := s.apply.ApplyAddMembersPendingProfileKeys(s.user, s.given, s.group, a, s.before)
	if asking && err == nil {
		// Whether somebody asking to join can be invited is left open; the
		// final state must not list anybody twice (C30).
		vfAssert(permitted, "people are invited only with the permission the rules demand")
		return
	}
	s.judge(err, vfAnd(permitted, !asking), func() {
		for k, i := range t {
			p := &s.people[i]
			p.place, p.role, p.by = vfInvited, roles[k], s.people[0].id
		}
	})
}

// An invitation that carries a profile key or a proof is not one.
func VC29_BadInvite() {
	s := vfPlain()
	m := &signalservice.Member{UserId: s.people[2].id, Role: vfDefault}
	added := &signalservice.PendingMember{Member: m}
	switch vfChoose("flaw", 6) {
	case 0:
		m.ProfileKey = []byte{1}
	case 1:
		m.Presentation = []byte{1}
	case 2:
		m.UserId = nil
	case 3:
		added.Member = nil
	case 4:
		added = nil
	case 5:
		m.Role = signalservice.Member_UNKNOWN
	}
	err := s.apply.ApplyAddMembersPendingProfileKeys(s.user, s.given, s.group, []*signalservice.GroupChange_Actions_AddPendingMemberAction{{Added: added}}, s.before)
	s.judge(err, false, nil)
}

// Members added without a key, an id or anything are refused.
func VC29_BadAdd() {
	s := vfPlain()
	m := &signalservice.Member{UserId: s.people[2].id, Role: vfDefault, ProfileKey: []byte{1}}
	switch vfChoose("flaw", 3) {
	case 0:
		m.ProfileKey = nil
	case 1:
		m.UserId = nil
	case 2:
		m = nil
	}
	err := s.apply.ApplyAddMembers(s.user, s.given, s.group, []*signalservice.GroupChange_Actions_AddMemberAction{{Added: m}}, s.before)
	s.judge(err, false, nil)
}

// Asking to join by link.
func VC29_Ask() {
	s := vfPlain()
	t, _ := vfTargets()
	var a []*signalservice.GroupChange_Actions_AddRequestingMemberAction
	for _, i := range t {
		a = append(a, &signalservice.GroupChange_Actions_AddRequestingMemberAction{Added: &signalservice.RequestingMember{UserId: s.people[i].id, ProfileKey: []byte{byte(50 + i)}, Timestamp: 5}})
	}
	if vfChoose("nobody", 4) == 3 {
		a[0].Added = nil
		t[0] = 1
	}
	err := s.apply.ApplyAddMembersPendingAdminApproval(s.user, s.given, s.group, a, s.before)
	s.judge(err, vfAnd(s.here, len(t) == 1, t[0] == 0, s.people[0].place == vfNone, s.link == vfAdmins, vfEq(s.given, s.password)), func() {
		s.people[0].place, s.people[0].key = vfAsking, []byte{50}
	})
}

// Letting those in who asked.
func VC29_Approve() {
	s := vfPlain()
	t, distinct := vfTargets()
	permitted := vfAnd(s.admin(), distinct, s.all(t, vfAsking))
	var roles []signalservice.Member_Role
	var a []*signalservice.GroupChange_Actions_PromoteRequestingMemberAction
	for _, i := range t {
		r := vfGrant()
		roles = append(roles, r)
		permitted = vfAnd(permitted, r != signalservice.Member_UNKNOWN)
		a = append(a, &signalservice.GroupChange_Actions_PromoteRequestingMemberAction{UserId: s.people[i].id, Role: r})
	}
	err := s.apply.ApplyPromotePendingAdminApproval(s.user, s.given, s.group, a, s.before)
	s.judge(err, permitted, func() {
		for k, i := range t {
			p := &s.people[i]
			p.place, p.role, p.joined = vfIn, roles[k], s.revision+1
		}
	})
}

// vfProven is a scene whose people can prove who they are.
func vfProven() (*vfScene, *vfSealed) {
	w := vfSealer(vfKey())
	pub, err := w.params.PublicParams()
	vfMust(err)
	return vfNewScene(w.id, pub, zkgroup.NewServerZkProfileOperations(w.server)), w
}

// vfProof is a proof of who somebody is; whose is -1 if it proves nothing.
func vfProof(w *vfSealed) (b []byte, whose int) {
	switch c := vfChoose("proof", 6); c {
	case 0, 1:
		return w.presentation(c), c
	case 2: // for another group
		return vfSealer(bytes.Repeat([]byte{9}, 32)).presentation(0), -1
	case 3: // from another server
		other := vfSealer(vfKey())
		server, err := zkgroup.GenerateServerSecretParamsDeterministic(bytes.Repeat([]byte{1}, 32))
		vfMust(err)
		other.server = server
		return other.presentation(0), -1
	case 4:
		b = w.presentation(0)
		return b[:len(b)-1], -1
	}
	return nil, -1
}

// Accepting an invitation, and changing one's profile key, take a proof of
// one's own.
//
//vf:fixedrand
func VC29_Proven() {
	s, w := vfProven()
	proof, whose := vfProof(w)
	accept := vfChoose("accept", 2) == 1
	place := vfIn
	var err error
	if accept {
		place = vfInvited
		err = s.apply.ApplyPromoteMembersPendingProfileKey(s.user, s.given, s.group, []*signalservice.GroupChange_Actions_PromotePendingMemberAction{{Presentation: proof}}, s.before)
	} else {
		err = s.apply.ApplyModifyMemberProfileKeys(s.user, s.given, s.group, []*signalservice.GroupChange_Actions_ModifyMemberProfileKeyAction{{Presentation: proof}}, s.before)
	}
	s.judge(err, vfAnd(s.here, whose == 0, s.people[0].place == place), func() {
		p := &s.people[0]
		p.place, p.key = vfIn, w.profileKey(0)
		if accept {
			p.joined = s.revision + 1
		}
	})
}

// What is checked before a change is applied: who asks to join proves who
// they are, and who invites is a member.
//
//vf:fixedrand
func VC29_Checked() {
	s, w := vfProven()
	v := s.validator
	switch vfChoose("kind", 3) {
	case 0:
		proof, whose := vfProof(w)
		m := &signalservice.RequestingMember{Presentation: proof}
		claims := vfChoose("claims", 4)
		switch claims {
		case 1:
			m.UserId = s.people[1].id
		case 2:
			m.ProfileKey = []byte{1}
		case 3:
			m.Timestamp = 5
		}
		err := v.ValidateAddMembersPendingAdminApproval(s.user, s.given, s.group, []*signalservice.GroupChange_Actions_AddRequestingMemberAction{{Added: m}})
		vfAssert((err == nil) == vfAnd(s.here, whose == 0, claims == 0, vfEq(s.given, s.password)), "exactly who proves to be the user and has the password may ask to join")
		if err == nil {
			vfAssert(vfAnd(vfEq(m.UserId, s.people[0].id), vfEq(m.ProfileKey, w.profileKey(0))), "who asks is who was proven to")
			vfReach("asks")
		}
	case 1:
		m := &signalservice.Member{UserId: s.people[2].id, Role: vfGrant()}
		flaw := vfChoose("flaw", 4)
		switch flaw {
		case 1:
			m.UserId = nil
		case 2:
			m.Presentation = []byte{1}
		case 3:
			m.ProfileKey = []byte{1}
		}
		p := &signalservice.PendingMember{Member: m, AddedByUserId: s.people[1].id}
		err := v.ValidateAddMembersPendingProfileKey(s.user, s.group, []*signalservice.GroupChange_Actions_AddPendingMemberAction{{Added: p}})
		vfAssert((err == nil) == vfAnd(s.member(), flaw == 0, m.Role != signalservice.Member_UNKNOWN), "exactly members may invite")
		if err == nil {
			vfAssert(vfAnd(vfEq(p.AddedByUserId, s.people[0].id), vfEq(p.Member.UserId, s.people[2].id)), "an invitation names who made it")
			vfReach("invites")
		}
	case 2:
		proof, whose := vfProof(w)
		m := &signalservice.Member{Role: vfGrant(), Presentation: proof}
		a := &signalservice.GroupChange_Actions_AddMemberAction{Added: m, JoinFromInviteLink: vfBool("by link")}
		by := a.JoinFromInviteLink
		err := v.ValidateAddMember(s.user, s.given, s.group, []*signalservice.GroupChange_Actions_AddMemberAction{a}, s.key)
		vfAssert(vfOr(err != nil, vfAnd(whose >= 0, m.Role != signalservice.Member_UNKNOWN, !by)), "members are added only with a proof of who they are")
	}
}

// A group without rules permits what needs no rule, and nothing crashes.
func VC29_NoRules() {
	s := vfPlain()
	s.group.DecryptedGroup.AccessControl = nil
	s.before.DecryptedGroup.AccessControl = nil
	id := s.people[2].id
	var err error
	permitted := s.admin()
	switch vfChoose("change", 5) {
	case 0:
		permitted = false
		err = s.apply.ApplyModifyTitle(s.user, s.given, s.group, &signalservice.GroupChange_Actions_ModifyTitleAction{Title: []byte("x")}, s.before)
	case 1:
		permitted = vfAnd(permitted, s.people[2].place == vfNone)
		err = s.apply.ApplyAddMembers(s.user, s.given, s.group, []*signalservice.GroupChange_Actions_AddMemberAction{{Added: &signalservice.Member{UserId: id, Role: vfDefault, ProfileKey: []byte{1}}}}, s.before)
	case 2:
		permitted = vfAnd(permitted, s.people[2].place == vfNone)
		err = s.apply.ApplyAddMembersPendingProfileKeys(s.user, s.given, s.group, []*signalservice.GroupChange_Actions_AddPendingMemberAction{{Added: &signalservice.PendingMember{Member: &signalservice.Member{UserId: id, Role: vfDefault}}}}, s.before)
	case 3:
		permitted = false
		err = s.apply.ApplyAddMembersPendingAdminApproval(s.user, s.given, s.group, []*signalservice.GroupChange_Actions_AddRequestingMemberAction{{Added: &signalservice.RequestingMember{UserId: s.people[0].id}}}, s.before)
	case 4:
		err = s.apply.ApplyModifyAttributesAccess(s.user, s.given, s.group, &signalservice.GroupChange_Actions_ModifyAttributesAccessControlAction{AttributesAccess: vfAdmins}, s.before)
		if err == nil {
			vfAssert(permitted && s.group.DecryptedGroup.AccessControl.GetAttributes() == vfAdmins, "an administrator gives the group rules")
			return
		}
	}
	vfAssert((err == nil) == permitted, "a group without rules permits exactly what needs no rule")
}
