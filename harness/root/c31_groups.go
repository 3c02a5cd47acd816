package textsecure

//vf:use world
//vf:use groupsv2/reset

import (
	"bytes"
	"io"
	"os"
	"path/filepath"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
	"gopkg.in/yaml.v2"
)

// C31: group messages reach exactly the members, and member lists are kept.

const vfTel = "+4917"

var vfTels = []string{"+491", "+492", "+493"}

// vfMember sets up a client among other users.
func vfMember() *vfWorld {
	w := vfNewWorld()
	dir := vfTempDir()
	s, _ := vfClient(filepath.Join(dir, "mine"), w.answer)
	s.SetLocalRegistrationID(77)
	config.ConfigFile = &config.Config{UUID: vfSelfID, Tel: vfTel, ProfileKey: make([]byte, 32), StorageDir: dir}
	deviceLists = map[string][]uint32{}
	contacts.Contacts = map[string]contacts.Contact{}
	client = &Client{}
	groups = map[string]*Group{}
	groupsv2.VfReset()
	vfAssert(setupGroups() == nil, "groups can be set up")
	return w
}

// vfRestart starts the client again.
func vfRestart() {
	groups = map[string]*Group{}
	groupsv2.VfReset()
	vfAssert(setupGroups() == nil, "groups can be set up again")
}

// vfOnce tells whether the list holds exactly these names, each once.
func vfOnce(list []string, names ...string) bool {
	if len(list) != len(names) {
		return false
	}
	for _, n := range names {
		c := 0
		for _, l := range list {
			if l == n {
				c++
			}
		}
		if c != 1 {
			return false
		}
	}
	return true
}

// each: everyone of these, and nobody else, received one message.
func (w *vfWorld) each(names ...string) bool {
	var to []string
	for _, a := range w.got {
		to = append(to, a.to)
	}
	return vfOnce(to, names...)
}

func vfStored(name string, members ...string) *Group {
	id := []byte{1, 2, 3, byte(len(groups)), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9}
	g := &Group{ID: id, Hexid: idToHex(id), Name: name, Members: members}
	groups[g.Hexid] = g
	vfAssert(saveGroup(g.Hexid) == nil, "a group can be saved")
	return g
}

func vfIs(hexid, name string, members ...string) bool {
	g, err := GetGroupById(hexid)
	return err == nil && g != nil && g.Hexid == hexid && idToHex(g.ID) == hexid && g.Name == name && vfOnce(g.Members, members...)
}

// vfNamed: lists of members to name, and who they are.
func vfNamed() ([]string, []string) {
	n := vfChoose("named", 6)
	lists := [][]string{{}, vfTels[:1], vfTels[:3], {vfTels[1], vfTel}, {vfTels[0], vfTels[1], vfTels[0]}, {vfTel, vfTels[2], vfTel}}
	who := [][]string{{}, vfTels[:1], vfTels[:3], vfTels[1:2], vfTels[:2], vfTels[2:3]}
	// The list may be part of a longer one.
	l := append(append(make([]string, 0, 8), lists[n]...), "after")
	return l[:len(l)-1], who[n]
}

// A group is made or changed: it has the members named and the user, each
// once, now and after a restart, and each other member is told once.
//
//vf:fixedrand
func VC31_Members() {
	w := vfMember()
	other := vfStored("other", vfTels[0], vfTel)
	named, who := vfNamed()
	title := []string{"title", ""}[vfChoose("title", 2)]
	var g *Group
	var err error
	if vfChoose("new", 2) == 1 {
		g, err = NewGroup(title, named)
	} else {
		old := vfStored("before", vfTels[2], vfTel)
		g, err = UpdateGroup(old.Hexid, title, named)
	}
	vfAssert(err == nil, "a group can be made and changed")
	all := append(append([]string{}, who...), vfTel)
	vfAssert(w.each(who...), "each other member, and nobody else, is told once")
	vfAssert(vfIs(g.Hexid, title, all...), "the group has the members named and the user, each once")
	vfAssert(vfIs(other.Hexid, "other", vfTels[0], vfTel), "other groups are as they were")
	vfAssert(named[:len(named)+1][len(named)] == "after", "the caller's list is left alone")
	n := len(groups)
	vfRestart()
	vfAssert(vfIs(g.Hexid, title, all...), "the group is known after a restart")
	vfAssert(vfIs(other.Hexid, "other", vfTels[0], vfTel), "other groups are known after a restart")
	vfAssert(len(groups) == n, "and no more")
	vfReach("made")
}

// A message to a group reaches every other member once, saying the same.
//
//vf:fixedrand
func VC31_Message() {
	w := vfMember()
	vfStored("other", vfTels[2], vfTel)
	members := [][]string{{vfTels[0], vfTel}, {vfTel, vfTels[0], vfTels[1]}, {vfTels[1], vfTels[2], vfTels[0]}}[vfChoose("members", 3)]
	g := vfStored("title", members...)
	var who []string
	for _, m := range members {
		if m != vfTel {
			who = append(who, m)
		}
	}
	// A member whose account is known is written to under its identifier.
	switch vfChoose("known", 3) {
	case 1:
		for _, t := range []string{"", "+4900", "+4901", "+4902", "+4903"} { // others, whose accounts are not
			contacts.Contacts[t] = contacts.Contact{Tel: t}
		}
		contacts.Contacts[vfPeer] = contacts.Contact{UUID: vfPeer, Tel: vfTels[0]}
		for i, m := range who {
			if m == vfTels[0] {
				who[i] = vfPeer
			}
		}
	case 2: // as contact discovery leaves contacts whose number is not registered
		none := []string{"00000000-0000-0000-0000-000000000000", "0", ""}[vfChoose("none", 3)]
		for _, t := range vfTels {
			contacts.Contacts[t] = contacts.Contact{UUID: none, Tel: t}
		}
	}
	timer := []uint32{0, 604800}[vfChoose("timer", 2)]
	ts, err := SendGroupMessage(g.Hexid, "hello", timer)
	vfAssert(err == nil, "a message can be sent to a group")
	vfAssert(w.each(who...), "each other member, and nobody else, receives the message once")
	for _, a := range w.got {
		dm := a.content.GetDataMessage()
		vfAssert(dm.GetBody() == "hello", "the message says what was written")
		vfAssert(dm.GetExpireTimer() == timer, "the message has the timer asked for")
		vfAssert(dm.GetTimestamp() == ts, "all copies are of the same time")
		vfAssert(a.ts == ts, "all copies are of the same time")
	}
	vfReach("sent")
}

// A member that cannot be reached is reported.
//
//vf:fixedrand
func VC31_Unreachable() {
	w := vfMember()
	g := vfStored("title", vfTels[0], vfTel, vfTels[1])
	w.fail = vfTels[vfChoose("who", 2)]
	var err error
	switch vfChoose("what", 3) {
	case 0:
		_, err = SendGroupMessage(g.Hexid, "hello", 0)
	case 1:
		_, err = UpdateGroup(g.Hexid, "title", vfTels[:2])
	case 2:
		err = LeaveGroup(g.Hexid)
	}
	vfAssert(err != nil, "a member that was not reached is reported")
	vfAssert(vfIs(g.Hexid, "title", vfTels[0], vfTel, vfTels[1]), "the group is still known")
	vfReach("reported")
}

// Leaving a group tells each other member once; then the group is gone, also
// after a restart, nothing can be sent to it, and other groups are kept.
//
//vf:fixedrand
func VC31_Leave() {
	w := vfMember()
	other := vfStored("other", vfTels[2], vfTel)
	members := [][]string{{vfTel}, {vfTels[0], vfTel}, {vfTel, vfTels[0], vfTels[1]}}[vfChoose("members", 3)]
	g := vfStored("title", members...)
	var who []string
	for _, m := range members {
		if m != vfTel {
			who = append(who, m)
		}
	}
	vfAssert(LeaveGroup(g.Hexid) == nil, "a group can be left")
	vfAssert(w.each(who...), "each other member, and nobody else, is told once")
	if vfChoose("restart", 2) == 1 {
		vfRestart()
	}
	_, err := GetGroupById(g.Hexid)
	vfAssert(err != nil, "a group left is not known any more")
	n := w.puts
	_, err = SendGroupMessage(g.Hexid, "hello", 0)
	vfAssert(err != nil, "nothing can be sent to a group left")
	_, err = UpdateGroup(g.Hexid, "x", vfTels[:1])
	vfAssert(err != nil, "a group left cannot be changed")
	vfAssert(LeaveGroup(g.Hexid) != nil, "a group cannot be left twice")
	vfAssert(w.puts == n, "nothing is sent to a group left")
	vfAssert(vfIs(other.Hexid, "other", vfTels[2], vfTel), "other groups are kept")
	vfReach("left")
}

// An unknown group is reported, and nothing is sent.
//
//vf:fixedrand
func VC31_Unknown() {
	w := vfMember()
	g := vfStored("title", vfTels[0], vfTel)
	id := []string{"", "00", g.Hexid + "00", g.Hexid[:30]}[vfChoose("id", 4)]
	_, e1 := SendGroupMessage(id, "hello", 0)
	_, e2 := UpdateGroup(id, "x", vfTels)
	_, e3 := GetGroupById(id)
	e4 := LeaveGroup(id)
	vfAssert(e1 != nil && e2 != nil && e3 != nil && e4 != nil, "an unknown group is reported")
	vfAssert(w.puts == 0, "nothing is sent")
	vfAssert(vfIs(g.Hexid, "title", vfTels[0], vfTel), "known groups are as they were")
	vfAssert(len(groups) == 1, "and no more")
	vfReach("unknown")
}

// A member quits: exactly this member is removed.
//
//vf:fixedrand
func VC31_Quit() {
	vfMember()
	other := vfStored("other", vfTels[0], vfTels[1], vfTel)
	all := []string{vfTels[0], vfTels[1], vfTel, vfTels[2]}
	g := vfStored("title", all...)
	quit := []string{vfTels[0], vfTels[1], vfTels[2], "+494"}
	left := append([]string{}, all...)
	for i := 0; i < 2; i++ {
		who := quit[vfChoose("who", 4)]
		vfAssert(quitGroup(who, g.Hexid) == nil, "a member can quit")
		var l []string
		for _, m := range left {
			if m != who {
				l = append(l, m)
			}
		}
		left = l
		vfAssert(vfIs(g.Hexid, "title", left...), "exactly the member who quit is removed")
	}
	vfRestart()
	vfAssert(vfIs(g.Hexid, "title", left...), "also after a restart")
	vfAssert(vfIs(other.Hexid, "other", vfTels[0], vfTels[1], vfTel), "other groups are as they were")
	vfAssert(quitGroup(vfTels[0], "0011") != nil, "an unknown group is reported")
	vfReach("quit")
}

// An update by another member sets name and members.
//
//vf:fixedrand
func VC31_Updated() {
	vfMember()
	other := vfStored("other", vfTels[0], vfTel)
	g := vfStored("title", vfTels[0], vfTel)
	id, name := g.ID, "new title"
	if vfChoose("new", 2) == 1 {
		id = []byte{7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7}
	}
	members := []string{vfTels[1], vfTel, vfTels[2]}
	vfAssert(updateGroup(&signalservice.GroupContext{Id: id, Name: &name, MembersE164: members}) == nil, "an update is taken")
	for i := 0; i < 2; i++ {
		vfAssert(vfIs(idToHex(id), name, members...), "the group has the name and members of the update")
		vfAssert(vfIs(other.Hexid, "other", vfTels[0], vfTel), "other groups are as they were")
		vfRestart()
	}
	vfReach("updated")
}

// vfUser is the account identifier of user i, 0 being the client's.
func vfUser(i int) (string, []byte) {
	if i == 0 {
		return vfSelfID, []byte{0x9d, 0x06, 0x52, 0xa3, 0xdc, 0xc3, 0x4d, 0x11, 0x97, 0x5f, 0x74, 0xd6, 0x15, 0x98, 0x73, 0x3f}
	}
	b := bytes.Repeat([]byte{byte(i)}, 16)
	return idToHexUUID(b), b
}

func vfStoredV2(b byte, rev uint32, members, pending []int) string {
	key := bytes.Repeat([]byte{b}, 32)
	d := &signalservice.DecryptedGroup{Title: "title", Revision: rev}
	for _, m := range members {
		_, id := vfUser(m)
		d.Members = append(d.Members, &signalservice.DecryptedMember{Uuid: id})
	}
	for _, m := range pending {
		_, id := vfUser(m)
		d.PendingMembers = append(d.PendingMembers, &signalservice.DecryptedPendingMember{Uuid: id})
	}
	y, err := yaml.Marshal(&groupsv2.GroupV2{MasterKey: key, Hexid: idToHex(key), DecryptedGroup: d})
	if err == nil {
		err = os.WriteFile(filepath.Join(config.ConfigFile.StorageDir, "groupsv2", idToHex(key)), y, 0600)
	}
	if err != nil {
		panic("group: " + err.Error())
	}
	return idToHex(key)
}

// A message to a group of the second kind reaches every other member once and
// names the group and its revision; whoever is only invited cannot send.
//
//vf:fixedrand
func VC31_MessageV2() {
	w := vfMember()
	rev := []uint32{0, 3000000000}[vfChoose("revision", 2)]
	members := [][]int{{0, 1}, {1, 0, 2}, {2, 1, 3, 0}, {1, 2}, {}}[vfChoose("members", 5)]
	pending := [][]int{{}, {4}, {0, 5}}[vfChoose("pending", 3)]
	vfStoredV2(8, 4, []int{0, 5}, nil)
	g := vfStoredV2(7, rev, members, pending)
	var who []string
	isMember := false
	for _, m := range members {
		u, _ := vfUser(m)
		if m == 0 {
			isMember = true
		} else {
			who = append(who, u)
		}
	}
	timer := []uint32{0, 604800}[vfChoose("timer", 2)]
	ts, err := SendGroupMessage(g, "hello", timer)
	if !isMember {
		vfAssert(err != nil, "who is no member cannot send to a group")
		vfAssert(w.puts == 0, "nothing is sent to a group the user is no member of")
		vfReach("invited")
		return
	}
	vfAssert(err == nil, "a message can be sent to a group")
	vfAssert(w.each(who...), "each other member, and nobody else, receives the message once")
	for _, a := range w.got {
		dm := a.content.GetDataMessage()
		vfAssert(dm.GetBody() == "hello", "the message says what was written")
		vfAssert(dm.GetExpireTimer() == timer, "the message has the timer asked for")
		vfAssert(dm.GetTimestamp() == ts, "all copies are of the same time")
		vfAssert(a.ts == ts, "all copies are of the same time")
		vfAssert(idToHex(dm.GetGroupV2().GetMasterKey()) == g, "the message names the group")
		vfAssert(dm.GetGroupV2().GetRevision() == rev, "the message names the revision of the group")
	}
	vfReach("sent")
}

// A member of a group of the second kind that cannot be reached is reported.
//
//vf:fixedrand
func VC31_UnreachableV2() {
	w := vfMember()
	g := vfStoredV2(7, 3, []int{1, 0, 2}, nil)
	w.fail, _ = vfUser(1 + vfChoose("who", 2))
	_, err := SendGroupMessage(g, "hello", 0)
	vfAssert(err != nil, "a member that was not reached is reported")
	vfReach("reported")
}

// An attachment or a voice note reaches every other member of a group of
// either kind once, uploaded once; one that cannot be uploaded is not sent.
//
//vf:fixedrand
func VC31_Attachment() {
	w := vfMember()
	uploads, down := 0, vfChoose("upload fails", 2) == 1
	w.other = func(r *vftransport.VfReq) vftransport.VfAnswer {
		switch r.Method {
		case "POST":
			return vftransport.VfAnswer{Status: 201, Header: map[string]string{"Location": "https://cdn2.signal.org/upload/k?id=1"}}
		case "PUT":
			if down {
				return vftransport.VfAnswer{Status: 503}
			}
			uploads++
			w.files["obj"] = r.Body
			return vftransport.VfAnswer{Status: 200}
		case "GET":
			if b, ok := w.files["obj"]; ok {
				return vftransport.VfAnswer{Status: 200, Body: b}
			}
		}
		return vftransport.VfAnswer{Status: 404}
	}
	second := vfChoose("second kind", 2) == 1
	var hexid string
	var who []string
	if second {
		hexid = vfStoredV2(7, 3, []int{1, 0, 2}, []int{3})
		for _, i := range []int{1, 2} {
			u, _ := vfUser(i)
			who = append(who, u)
		}
	} else {
		hexid = vfStored("title", vfTels[1], vfTel, vfTels[0]).Hexid
		who = []string{vfTels[1], vfTels[0]}
	}
	data := bytes.Repeat([]byte("data "), 7)[:[]int{1, 16, 21}[vfChoose("length", 3)]]
	timer := []uint32{0, 604800}[vfChoose("timer", 2)]
	voice := vfChoose("voice note", 2) == 1
	var ts uint64
	var err error
	if voice {
		ts, err = SendGroupVoiceNote(hexid, "see", bytes.NewReader(data), timer)
	} else {
		ts, err = SendGroupAttachment(hexid, "see", bytes.NewReader(data), timer)
	}
	if down {
		vfAssert(err != nil, "an attachment that is not uploaded is reported")
		vfAssert(len(w.got) == 0, "and no message names it")
		vfReach("reported")
		return
	}
	vfAssert(err == nil, "an attachment can be sent to a group")
	vfAssert(uploads == 1, "it is uploaded once")
	vfAssert(w.each(who...), "each other member, and nobody else, receives the message once")
	for _, a := range w.got {
		dm := a.content.GetDataMessage()
		vfAssert(dm.GetBody() == "see" && dm.GetExpireTimer() == timer && dm.GetTimestamp() == ts && a.ts == ts, "the message says what was written, and when")
		if second {
			vfAssert(idToHex(dm.GetGroupV2().GetMasterKey()) == hexid, "the message names the group")
		}
		vfAssert(len(dm.GetAttachments()) == 1, "the message has the attachment")
		vfAssert((dm.GetAttachments()[0].GetFlags()&uint32(signalservice.AttachmentPointer_VOICE_MESSAGE) != 0) == voice, "a voice note is one, an attachment is none")
		l, err := handleAttachments(dm)
		vfAssert(err == nil && len(l) == 1, "each member can fetch it")
		b, err := io.ReadAll(l[0].R)
		vfAssert(vfAnd(err == nil, vfEq(b, data)), "and has what was sent")
	}
	vfReach("sent")
}

// Information about a group is asked of each other member once.
//
//vf:fixedrand
func VC31_Request() {
	w := vfMember()
	members := [][]string{{vfTels[0], vfTel}, {vfTel, vfTels[0], vfTels[1]}, {vfTels[1], vfTels[2], vfTels[0]}, {vfTel}}[vfChoose("members", 4)]
	g := vfStored("title", members...)
	var who []string
	for _, m := range members {
		if m != vfTel {
			who = append(who, m)
		}
	}
	if len(who) > 0 && vfChoose("unreachable", 2) == 1 {
		w.fail = who[len(who)-1]
		vfAssert(RequestGroupInfo(g) != nil, "a member that was not reached is reported")
		vfReach("reported")
		return
	}
	vfAssert(RequestGroupInfo(g) == nil, "information can be asked for")
	vfAssert(w.each(who...), "each other member, and nobody else, is asked once")
	vfAssert(vfIs(g.Hexid, "title", members...), "the group is as before")
	vfReach("asked")
}
