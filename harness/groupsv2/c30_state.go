package groupsv2

import (
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
)

// C30: no invalid group state is accepted.

const (
	vfMaxSize        = 3
	vfMaxTitle       = 2
	vfMaxDescription = 4
)

func vfValidator() *GroupValidator {
	c := &config.Config{}
	c.Group.MaxGroupSize = vfMaxSize
	c.Group.MaxGroupTitleLengthBytes = vfMaxTitle
	c.Group.MaxGroupDescriptionLengthBytes = vfMaxDescription
	return NewGroupValidator(nil, c)
}

func vfAccess(name string) signalservice.AccessControl_AccessRequired {
	return signalservice.AccessControl_AccessRequired(vfInt(name, 0, 5))
}

// vfSound is a group in which everything is as it should be.
func vfSound() *signalservice.DecryptedGroup {
	return &signalservice.DecryptedGroup{
		Title:              "t",
		InviteLinkPassword: []byte{1},
		AccessControl: &signalservice.AccessControl{
			Attributes: signalservice.AccessControl_MEMBER, Members: signalservice.AccessControl_MEMBER, AddFromInviteLink: signalservice.AccessControl_ANY},
		Members: []*signalservice.DecryptedMember{{Uuid: []byte{9, 9}, Role: signalservice.Member_ADMINISTRATOR}},
	}
}

// The texts, the password and the access settings.
func VC30_Settings() {
	v, g := vfValidator(), vfSound()
	g.Title = vfString("title", vfChoose("title length", vfMaxTitle+2))
	g.Description = vfString("description", vfChoose("description length", vfMaxDescription+2))
	g.InviteLinkPassword = vfBytes("password", []int{0, 1, 16}[vfChoose("password length", 3)])
	a := g.AccessControl
	a.Attributes, a.Members, a.AddFromInviteLink = vfAccess("attributes"), vfAccess("members"), vfAccess("link")
	ok := vfAnd(len(g.Title) > 0, len(g.Title) <= vfMaxTitle, len(g.Description) <= vfMaxDescription)
	for _, x := range []signalservice.AccessControl_AccessRequired{a.Attributes, a.Members} {
		// anybody at all may never change the group; nobody makes no sense
		ok = vfAnd(ok, x != signalservice.AccessControl_ANY, x != signalservice.AccessControl_UNSATISFIABLE, x != 5)
	}
	l := a.AddFromInviteLink
	ok = vfAnd(ok, l != 5, vfOr(len(g.InviteLinkPassword) > 0, l == signalservice.AccessControl_UNKNOWN, l == signalservice.AccessControl_UNSATISFIABLE))
	err := v.ValidateFinalGroupState(g)
	if err == nil {
		vfAssert(ok, "a state is accepted only if its settings respect the rules")
		vfReach("accepted")
		return
	}
	vfReach("refused")
	usual := vfAnd(vfOr(a.Attributes == signalservice.AccessControl_MEMBER, a.Attributes == signalservice.AccessControl_ADMINISTRATOR),
		vfOr(a.Members == signalservice.AccessControl_MEMBER, a.Members == signalservice.AccessControl_ADMINISTRATOR),
		l != signalservice.AccessControl_MEMBER)
	vfAssert(!vfAnd(ok, usual), "a state whose settings respect the rules is accepted")
}

// The membership lists.
func VC30_People() {
	v, g := vfValidator(), vfSound()
	g.Members = nil
	n := vfMaxSize
	if vfTier() > 0 {
		n++
	}
	ok := true
	var ids [][]byte
	id := func() []byte {
		b := vfBytes("id", 1)
		for _, o := range ids {
			ok = vfAnd(ok, !vfEq(b, o))
		}
		ids = append(ids, b)
		return b
	}
	role := func() signalservice.Member_Role {
		r := signalservice.Member_Role(vfInt("role", 0, 3))
		ok = vfAnd(ok, vfOr(r == signalservice.Member_DEFAULT, r == signalservice.Member_ADMINISTRATOR))
		return r
	}
	all := vfChoose("people", n+2)
	for i := 0; i < all; i++ {
		switch vfChoose("list", 3) {
		case 0:
			g.Members = append(g.Members, &signalservice.DecryptedMember{Uuid: id(), Role: role()})
		case 1:
			g.PendingMembers = append(g.PendingMembers, &signalservice.DecryptedPendingMember{Uuid: id(), Role: role()})
		case 2:
			g.RequestingMembers = append(g.RequestingMembers, &signalservice.DecryptedRequestingMember{Uuid: id()})
		}
	}
	ok = vfAnd(ok, len(g.Members)+len(g.PendingMembers) <= vfMaxSize, len(g.RequestingMembers) <= vfMaxSize)
	err := v.ValidateFinalGroupState(g)
	if err == nil {
		vfReach("accepted")
	} else {
		vfReach("refused")
	}
	vfAssert((err == nil) == ok, "a state is accepted exactly if nobody is listed twice, the lists respect the limits and the roles are valid")
}

// A state with parts missing.
func VC30_Missing() {
	v, g := vfValidator(), vfSound()
	switch vfChoose("missing", 4) {
	case 0:
		g.AccessControl = nil
		v.ValidateFinalGroupState(g)
		return
	case 1:
		g.InviteLinkPassword = nil
	case 2:
		g.Title = ""
	case 3:
		g = &signalservice.DecryptedGroup{}
	}
	vfAssert(v.ValidateFinalGroupState(g) != nil, "a state with necessary parts missing is refused")
}
