package axolotl

//vf:use session

// vfChat explores conversations: at every step one side sends or one of the
// messages on the wire is delivered. Every delivery must be decrypted exactly;
// what has been delivered is kept for the caller.
func vfChat(a, b *vfParty, steps, sends int) (delivered, pending []*vfMsg) {
	na, nb := 0, 0
	for i := 0; i < steps; i++ {
		opts := len(pending) + 2
		k := vfChoose("step", opts)
		switch {
		case k == 0:
			vfAssume(na < sends)
			na++
			pending = append(pending, a.send(b, append(vfBytes("pa", 2), byte(i))))
		case k == 1:
			vfAssume(nb < sends)
			nb++
			pending = append(pending, b.send(a, append(vfBytes("pb", 2), byte(i))))
		default:
			m := pending[k-2]
			pending = append(append([]*vfMsg{}, pending[:k-2]...), pending[k-1:]...)
			m.ok("delivery in any order")
			delivered = append(delivered, m)
		}
	}
	return
}

// Any schedule of sends and deliveries after the session is established; at
// the end the remaining messages arrive, oldest or newest first.
func VC02_Schedules() {
	a, b := vfPair()
	_, pending := vfChat(a, b, 5+vfTier(), 3)
	rev := vfChoose("rest", 2) == 1
	for i := range pending {
		if rev {
			i = len(pending) - 1 - i
		}
		pending[i].ok("late delivery")
	}
	vfReach("all delivered")
}

// The first messages of a session, all carrying the prekey header, arrive in
// any order and mixed with replies.
func VC02_OpeningInAnyOrder() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfAssert(a.start(b, b.bundle(7, 5, vfChoose("onetime", 2) == 1)) == nil, "session started")
	ms := []*vfMsg{a.send(b, vfBytes("p0", 3)), a.send(b, vfBytes("p1", 3)), a.send(b, vfBytes("p2", 3))}
	for len(ms) > 0 {
		k := vfChoose("next", len(ms))
		ms[k].ok("opening message")
		ms = append(append([]*vfMsg{}, ms[:k]...), ms[k+1:]...)
		if vfChoose("reply", 2) == 1 {
			b.send(a, []byte("re")).ok("reply")
		}
	}
	vfReach("opening done")
}

// Both sides start a session at the same time; the messages of both sessions
// and later ones arrive in any order.
func VC02_CrossedSessions() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	ba, bb := a.bundle(8, 6, true), b.bundle(7, 5, true)
	vfAssert(vfAnd(a.start(b, bb) == nil, b.start(a, ba) == nil), "sessions started")
	ms := []*vfMsg{a.send(b, vfBytes("a0", 3)), b.send(a, vfBytes("b0", 3)), a.send(b, vfBytes("a1", 3)), b.send(a, vfBytes("b1", 3))}
	more := 2
	for len(ms) > 0 {
		k := vfChoose("next", len(ms))
		m := ms[k]
		m.ok("message of either session")
		ms = append(append([]*vfMsg{}, ms[:k]...), ms[k+1:]...)
		if more > 0 && vfChoose("answer", 2) == 1 {
			more--
			ms = append(ms, m.to.send(m.from, []byte("answer")))
		}
	}
	vfReach("both sessions")
}

// Messages from several ratchet steps, all delivered at the end in any order.
func VC02_AcrossRatchets() {
	a, b := vfPair()
	var late []*vfMsg
	for r := 0; r < 3; r++ {
		late = append(late, a.send(b, vfBytes("late", 2)))
		a.send(b, vfBytes("now", 2)).ok("current")
		b.send(a, []byte("step")).ok("step")
	}
	for len(late) > 0 {
		k := vfChoose("next", len(late))
		late[k].ok("from an earlier ratchet step")
		late = append(append([]*vfMsg{}, late[:k]...), late[k+1:]...)
	}
	vfReach("late")
}

// A gap of exactly the documented maximum is bridged, and a skipped message still decrypts.
//
//vf:thorough
func VC02_LargestGap() {
	a, b := vfPair()
	first := a.send(b, vfBytes("first", 2))
	for i := 0; i < 1999; i++ {
		a.send(b, []byte("x"))
	}
	last := a.send(b, vfBytes("last", 2))
	last.ok("2000 messages skipped")
	first.ok("the skipped message")
	vfReach("gap")
}

// A gap of moderate size.
func VC02_Gap() {
	a, b := vfPair()
	n := []int{1, 4, 17, 64}[vfChoose("gap", 4)]
	var ms []*vfMsg
	for i := 0; i < n; i++ {
		ms = append(ms, a.send(b, vfBytes("x", 1)))
	}
	a.send(b, vfBytes("last", 2)).ok("after a gap")
	for i := len(ms) - 1; i >= 0; i -= 3 {
		ms[i].ok("a skipped message")
	}
	vfReach("gap")
}

// Several sessions one after another; what was sent in each arrives late, in
// any order, and is answered in the session it belongs to.
func VC02_SeveralSessions() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	var late []*vfMsg
	for i := 0; i < 3; i++ {
		vfAssert(a.start(b, b.bundle(uint32(100+i), int32(200+i), i != 1)) == nil, "session started")
		a.send(b, []byte("open")).ok("first message")
		late = append(late, b.send(a, []byte{'r', byte(i)}))
	}
	var more []*vfMsg
	for len(late) > 0 {
		k := vfChoose("reply", len(late))
		late[k].ok("a reply in any session")
		late = append(append([]*vfMsg{}, late[:k]...), late[k+1:]...)
		more = append(more, a.send(b, vfBytes("x", 2)))
	}
	for len(more) > 0 {
		k := vfChoose("next", len(more))
		more[k].ok("a message in any session")
		more = append(append([]*vfMsg{}, more[:k]...), more[k+1:]...)
	}
	a.send(b, []byte("x")).ok("and on")
	b.send(a, []byte("y")).ok("and on")
	vfReach("all sessions")
}

// After many ratchet steps the messages of the last ones still arrive.
func VC02_ManyRatchets() {
	a, b := vfPair()
	n := 4 + vfChoose("steps", 4+4*vfTier())
	var late []*vfMsg
	for r := 0; r < n; r++ {
		late = append(late, a.send(b, vfBytes("late", 1)))
		a.send(b, []byte("now")).ok("current")
		b.send(a, []byte("step")).ok("step")
	}
	rev := vfChoose("rest", 2) == 1
	for i := range late[n-4:] {
		if rev {
			i = 3 - i
		}
		late[n-4+i].ok("from one of the last ratchet steps")
	}
	vfReach("late")
}

// At any point of a chain, messages can arrive in any order, also after the
// next chain has begun.
//
//vf:fixedrand
func VC02_AnyCounter() {
	a, b := vfPair()
	a.send(b, []byte("x")).ok("first of the chain")
	i := vfU32("counter")
	vfAssume(i < 1<<32-8)
	vfAdvance(a, b, i)
	ms := []*vfMsg{a.send(b, []byte("m0")), a.send(b, []byte("m1")), a.send(b, []byte("m2"))}
	turn := vfChoose("turn after", 4)
	for n := 0; len(ms) > 0; n++ {
		if n == turn {
			b.send(a, []byte("turn")).ok("turn")
			a.send(b, []byte("next chain")).ok("next chain")
		}
		k := vfChoose("next", len(ms))
		ms[k].ok("message of a chain, in any order")
		ms = append(append([]*vfMsg{}, ms[:k]...), ms[k+1:]...)
	}
	vfReach("delivered")
}

// Messages of a chain, all of them late, arrive in any order after the
// conversation has gone on, each of several chains having its own.
//
//vf:fixedrand
func VC02_LateChains() {
	a, b := vfPair()
	n := []int{6, 9, 40}[vfChoose("skipped", 3)]
	var late []*vfMsg
	for r := 0; r < 2; r++ {
		for i := 0; i < n; i++ {
			late = append(late, a.send(b, []byte{'l', byte(r), byte(i)}))
		}
		a.send(b, []byte("now")).ok("after a gap")
		b.send(a, []byte("turn")).ok("turn")
	}
	a.send(b, []byte("now")).ok("in a new chain")
	order := vfChoose("order", 3)
	if vfChoose("pause", 2) == 1 {
		late[len(late)/2].ok("one of them")
		b.send(a, []byte("turn")).ok("turn")
		a.send(b, []byte("now")).ok("in a new chain")
		late = append(late[:len(late)/2:len(late)/2], late[len(late)/2+1:]...)
	}
	step := []int{1, len(late) - 1, len(late)/2 + 1}[order]
	for order == 2 && vfGCD(step, len(late)) > 1 {
		step++
	}
	for i, k := 0, 0; i < len(late); i++ {
		late[k].ok("one of many skipped messages")
		k = (k + step) % len(late)
	}
	vfReach("delivered")
}

func vfGCD(a, b int) int {
	for b > 0 {
		a, b = b, a%b
	}
	return a
}
