package axolotl

//vf:use session

// C01: session establishment and conversations in order.

func vfText(name string) []byte {
	return vfBytes(name, []int{0, 5, 16, 33}[vfChoose(name+"len", 2+2*vfTier())])
}

// A session from a bundle with or without a one-time prekey; several messages
// before the first reply, then replies in both directions.
func VC01_FirstMessages() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	one := vfChoose("onetime", 2) == 1
	bun := b.bundle(7, 5, one)
	vfAssert(a.start(b, bun) == nil, "a session starts from a genuine bundle")
	m1 := a.send(b, vfText("p1"))
	m2 := a.send(b, vfText("p2"))
	vfAssert(vfAnd(m1.typ == 3, m2.typ == 3), "messages before the first reply carry the prekey header")
	m1.ok("first message")
	m2.ok("second message before a reply")
	r1 := b.send(a, vfText("p3"))
	vfAssert(r1.typ == 1, "the reply is an ordinary message")
	r1.ok("reply")
	m3 := a.send(b, vfText("p4"))
	vfAssert(m3.typ == 1, "after a reply the header is dropped")
	m3.ok("message after reply")
	r2 := b.send(a, []byte("again"))
	r2.ok("second reply")
	ra, _ := a.cipher("bob").GetRemoteRegistrationID()
	rb, _ := b.cipher("alice").GetRemoteRegistrationID()
	vfAssert(vfAnd(ra == 22, rb == 11), "registration ids of the peers are recorded")
	vfReach("conversation")
}

// Any number of messages before the first reply, of which the first ones never
// arrive: each of the others opens the session.
func VC01_Unanswered() {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfPast(a, b)
	vfAssert(a.start(b, b.bundle(7, 5, vfChoose("onetime", 2) == 1)) == nil, "a session starts from a genuine bundle")
	lost := vfChoose("lost", 6+4*vfTier())
	for i := 0; i < lost; i++ {
		a.send(b, []byte("lost"))
	}
	m := a.send(b, vfBytes("p", 3))
	m.ok("first message that arrives")
	if vfChoose("reply", 2) == 1 {
		b.send(a, []byte("reply")).ok("reply")
	}
	a.send(b, vfBytes("q", 3)).ok("the next one")
	b.send(a, vfBytes("r", 3)).ok("answer")
	vfReach("opened")
}

// Long conversations in which either side speaks, any number of times in a row.
func VC01_Rounds() {
	a, b := vfPair()
	who := a
	for i := 0; i < 8+4*vfTier(); i++ {
		if vfChoose("turn", 2) == 1 {
			if who == a {
				who = b
			} else {
				who = a
			}
		}
		to := b
		if who == b {
			to = a
		}
		who.send(to, vfBytes("p", 2)).ok("the next message")
	}
	vfReach("rounds")
}

// One side starts another session: messages of both sessions arrive, and the
// conversation goes on.
func VC01_Anew() {
	a, b := vfPair()
	x, y := a, b
	if vfChoose("who", 2) == 1 {
		x, y = b, a
	}
	was := x.send(y, vfBytes("was", 2))
	there := y.send(x, vfBytes("there", 2))
	vfAssert(x.start(y, y.bundle(107, 105, vfChoose("onetime", 2) == 1)) == nil, "another session starts")
	m := x.send(y, vfBytes("m", 2))
	vfAssert(m.typ == 3, "its messages carry the prekey header")
	late := y.send(x, vfBytes("late", 2))
	switch vfChoose("order", 4) {
	case 0:
		m.ok("the first message of the new session")
		was.ok("a message sent before")
		there.ok("a message of the other side sent before")
		late.ok("a message of the other side sent meanwhile")
	case 1:
		late.ok("a message of the other side sent meanwhile")
		there.ok("a message of the other side sent before")
		m.ok("the first message of the new session")
		was.ok("a message sent before")
	case 2:
		there.ok("a message of the other side sent before")
		was.ok("a message sent before")
		late.ok("a message of the other side sent meanwhile")
		m.ok("the first message of the new session")
	case 3:
		was.ok("a message sent before")
		m.ok("the first message of the new session")
		late.ok("a message of the other side sent meanwhile")
		there.ok("a message of the other side sent before")
	}
	y.send(x, vfBytes("r", 2)).ok("answer")
	x.send(y, vfBytes("s", 2)).ok("and on")
	y.send(x, vfBytes("t", 2)).ok("and on")
	vfReach("anew")
}
