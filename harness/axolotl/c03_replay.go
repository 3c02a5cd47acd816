package axolotl

//vf:use session

// Everything that was delivered in a conversation is refused when presented
// again, at once or at the end.
func VC03_Conversation() {
	a, b := vfPair()
	pending := []*vfMsg{}
	var done []*vfMsg
	steps := 5 + vfTier()
	for i := 0; i < steps; i++ {
		k := vfChoose("step", len(pending)+2)
		if k < 2 {
			p, q := a, b
			if k == 1 {
				p, q = b, a
			}
			pending = append(pending, p.send(q, append(vfBytes("p", 2), byte(i))))
			continue
		}
		m := pending[k-2]
		pending = append(append([]*vfMsg{}, pending[:k-2]...), pending[k-1:]...)
		m.ok("first delivery")
		m.refused("second delivery at once is refused")
		done = append(done, m)
	}
	for _, m := range done {
		m.refused("replay at the end is refused")
	}
	vfReach("replayed")
}

// Replays against sessions that have been replaced: both sides started at the
// same time, or one side started again.
func VC03_ReplacedSessions() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	ba, bb := a.bundle(8, 6, true), b.bundle(7, 5, true)
	vfAssert(vfAnd(a.start(b, bb) == nil, b.start(a, ba) == nil), "sessions started")
	ms := []*vfMsg{a.send(b, vfBytes("a0", 3)), b.send(a, vfBytes("b0", 3)), a.send(b, vfBytes("a1", 3)), b.send(a, vfBytes("b1", 3))}
	var done []*vfMsg
	for len(ms) > 0 {
		k := vfChoose("next", len(ms))
		m := ms[k]
		m.ok("message of either session")
		done = append(done, m)
		ms = append(append([]*vfMsg{}, ms[:k]...), ms[k+1:]...)
		for _, o := range done {
			o.refused("replay across sessions is refused")
		}
		if len(done) == 2 && vfChoose("answer", 2) == 1 {
			ms = append(ms, m.to.send(m.from, []byte("answer")))
		}
	}
	vfReach("replayed")
}

// A session is started again from a new bundle; messages of the old and the
// new session arrive interleaved, and everything is replayed.
func VC03_Restarted() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfAssert(a.start(b, b.bundle(7, 5, vfChoose("onetime", 2) == 1)) == nil, "session started")
	ms := []*vfMsg{a.send(b, vfBytes("a0", 3)), a.send(b, vfBytes("a1", 3))}
	if vfChoose("early", 2) == 1 {
		m := ms[0]
		ms = ms[1:]
		m.ok("before the restart")
		b.send(a, []byte("r")).ok("reply")
		ms = append(ms, a.send(b, vfBytes("a1b", 3)))
		defer m.refused("replay of the opening message at the end")
	}
	vfAssert(a.start(b, b.bundle(9, 10, true)) == nil, "session started again")
	ms = append(ms, a.send(b, vfBytes("a2", 3)), a.send(b, vfBytes("a3", 3)))
	var done []*vfMsg
	for len(ms) > 0 {
		k := vfChoose("next", len(ms))
		ms[k].ok("message of either session")
		done = append(done, ms[k])
		ms = append(append([]*vfMsg{}, ms[:k]...), ms[k+1:]...)
		for _, o := range done {
			o.refused("replay is refused")
		}
	}
	vfReach("replayed")
}

// When the advanced session cannot be stored, no plaintext is released (it
// could be accepted again); once storing works the message is accepted once.
func VC03_StoreFailure() {
	a, b := vfPair()
	m := a.send(b, vfBytes("p", 3))
	b.st.failStore = true
	m.refused("no plaintext unless the session was stored")
	b.st.failStore = false
	m.ok("redelivery")
	m.refused("replay")
	vfReach("failed once")
}

// Messages of one chain in any order; everything delivered so far is presented
// again after each delivery, and the next chain begins in between.
func VC03_Orders() {
	a, b := vfPair()
	n := 4 + vfTier()
	var ms, done []*vfMsg
	for i := 0; i < n; i++ {
		ms = append(ms, a.send(b, append(vfBytes("p", 1), byte(i))))
	}
	turn := vfChoose("turn after", n+1)
	for len(ms) > 0 {
		if len(done) == turn {
			b.send(a, []byte("turn")).ok("turn")
			a.send(b, []byte("next chain")).ok("next chain")
		}
		k := vfChoose("next", len(ms))
		ms[k].ok("message of a chain")
		done = append(done, ms[k])
		ms = append(append([]*vfMsg{}, ms[:k]...), ms[k+1:]...)
		for _, o := range done {
			o.refused("replay is refused")
		}
	}
	vfReach("replayed")
}

// Many sessions in succession: messages that arrive for any of the earlier ones,
// after others, are accepted once.
//
//vf:fixedrand
func VC03_ManySessions() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfDistinct(a, b)
	n := 6
	late := make([][]*vfMsg, n)
	var done []*vfMsg
	for i := 0; i < n; i++ {
		vfAssert(a.start(b, b.bundle(uint32(7+i), int32(5+i), i%2 == 0)) == nil, "session started")
		m := a.send(b, []byte{'f', byte(i)})
		m.ok("first message")
		done = append(done, m)
		late[i] = []*vfMsg{a.send(b, append(vfBytes("p", 1), byte(i))), a.send(b, []byte{'l', byte(i)}), a.send(b, []byte{'m', byte(i)})}
	}
	i, j := vfChoose("one", n), vfChoose("other", n)
	for k, m := range []*vfMsg{late[i][1], late[j][0], late[i][0], late[i][2]} {
		if k == 1 && i == j {
			continue
		}
		m.ok("a message of an earlier session")
		done = append(done, m)
		for _, o := range done {
			o.refused("replay is refused")
		}
	}
	b.send(a, []byte("answer")).ok("answer")
	for _, o := range done {
		o.refused("replay is refused")
	}
	vfReach("replayed")
}

// At any point of a chain, what was read is not read again.
//
//vf:fixedrand
func VC03_AnyCounter() {
	a, b := vfPair()
	a.send(b, []byte("x")).ok("first of the chain")
	i := vfU32("counter")
	vfAssume(i < 1<<32-8)
	vfAdvance(a, b, i)
	ms := []*vfMsg{a.send(b, []byte("m0")), a.send(b, []byte("m1")), a.send(b, []byte("m2"))}
	var done []*vfMsg
	for len(ms) > 0 {
		k := vfChoose("next", len(ms))
		ms[k].ok("message of a chain")
		done = append(done, ms[k])
		ms = append(append([]*vfMsg{}, ms[:k]...), ms[k+1:]...)
		for _, o := range done {
			o.refused("replay is refused")
		}
	}
	vfReach("replayed")
}
