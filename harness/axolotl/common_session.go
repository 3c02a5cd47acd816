package axolotl

import (
	"errors"

	vfproto "github.com/golang/protobuf/proto"
	vfpb "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/curve25519sign"
)

// vfStore is a store that keeps everything serialized, as the real one does,
// and logs the calls that change it.
type vfStore struct {
	own  *IdentityKeyPair
	reg  uint32
	sess map[string][]byte
	pk   map[uint32][]byte
	spk  map[uint32][]byte
	ids  map[string][]byte
	log  []string
	// fault injection: the n-th mutating or loading call from now on fails (0: none)
	failStore, failLoad bool
	failSave            bool
	crashIn             int
	crashBefore         bool
}

// crashAt makes the n-th store operation from now on the last one of the process.
func (s *vfStore) crashAt(n int, before bool) { s.crashIn, s.crashBefore = n, before }

// step: the process dies before or after the crashIn-th store operation.
func (s *vfStore) step(f func()) {
	if s.crashIn > 0 {
		s.crashIn--
		if s.crashIn == 0 {
			if !s.crashBefore {
				f()
			}
			panic("vfcrash")
		}
	}
	f()
}

var vfErrStore = errors.New("store failure")

func (s *vfStore) Lock()   {}
func (s *vfStore) Unlock() {}

func vfSessKey(id string, dev uint32) string {
	return id + "." + string(rune('0'+dev))
}
func (s *vfStore) LoadSession(id string, dev uint32) (*SessionRecord, error) {
	if s.failLoad {
		return nil, vfErrStore
	}
	s.step(func() {})
	b, ok := s.sess[vfSessKey(id, dev)]
	if !ok {
		return NewSessionRecord(), nil
	}
	return LoadSessionRecord(append([]byte{}, b...))
}
func (s *vfStore) GetSubDeviceSessions(string) []uint32 { return nil }
func (s *vfStore) StoreSession(id string, dev uint32, r *SessionRecord) error {
	s.log = append(s.log, "session")
	if s.failStore {
		return vfErrStore
	}
	b, err := r.Serialize()
	if err != nil {
		return err
	}
	s.step(func() { s.sess[vfSessKey(id, dev)] = b })
	return nil
}
func (s *vfStore) ContainsSession(id string, dev uint32) bool {
	_, ok := s.sess[vfSessKey(id, dev)]
	return ok
}
func (s *vfStore) DeleteSession(id string, dev uint32) { delete(s.sess, vfSessKey(id, dev)) }
func (s *vfStore) DeleteAllSessions(string)            { s.sess = map[string][]byte{} }

func (s *vfStore) LoadPreKey(id uint32) (*PreKeyRecord, error) {
	b, ok := s.pk[id]
	if !ok {
		return nil, vfErrStore
	}
	return LoadPreKeyRecord(append([]byte{}, b...))
}
func (s *vfStore) StorePreKey(id uint32, r *PreKeyRecord) error {
	b, err := r.Serialize()
	if err == nil {
		s.pk[id] = b
	}
	return err
}
func (s *vfStore) ContainsPreKey(id uint32) bool { _, ok := s.pk[id]; return ok }
func (s *vfStore) RemovePreKey(id uint32) {
	s.log = append(s.log, "removeprekey")
	s.step(func() { delete(s.pk, id) })
}
func (s *vfStore) LoadSignedPreKey(id uint32) (*SignedPreKeyRecord, error) {
	b, ok := s.spk[id]
	if !ok {
		return nil, vfErrStore
	}
	return LoadSignedPreKeyRecord(append([]byte{}, b...))
}
func (s *vfStore) LoadSignedPreKeys() []SignedPreKeyRecord { return nil }
func (s *vfStore) StoreSignedPreKey(id uint32, r *SignedPreKeyRecord) error {
	b, err := r.Serialize()
	if err == nil {
		s.spk[id] = b
	}
	return err
}
func (s *vfStore) ContainsSignedPreKey(id uint32) bool { _, ok := s.spk[id]; return ok }
func (s *vfStore) RemoveSignedPreKey(id uint32)        { delete(s.spk, id) }
func (s *vfStore) GetIdentityKeyPair() (*IdentityKeyPair, error) {
	return s.own, nil
}
func (s *vfStore) GetLocalRegistrationID() (uint32, error) { return s.reg, nil }
func (s *vfStore) SaveIdentity(id string, k *IdentityKey) error {
	s.log = append(s.log, "identity")
	if s.failSave {
		return vfErrStore
	}
	s.step(func() { s.ids[id] = k.Serialize() })
	return nil
}
func (s *vfStore) IsTrustedIdentity(id string, k *IdentityKey) bool {
	b, ok := s.ids[id]
	return !ok || vfEq(b, k.Serialize())
}

type vfParty struct {
	name string
	st   *vfStore
}

func vfNewParty(name string, reg uint32) *vfParty {
	return &vfParty{name, &vfStore{own: GenerateIdentityKeyPair(), reg: reg, sess: map[string][]byte{},
		pk: map[uint32][]byte{}, spk: map[uint32][]byte{}, ids: map[string][]byte{}}}
}

const vfDev = 1

func (p *vfParty) cipher(peer string) *SessionCipher {
	return NewSessionCipher(p.st, p.st, p.st, p.st, peer, vfDev)
}

// bundle publishes prekeys of p and returns the bundle a peer would fetch.
func (p *vfParty) bundle(pkID uint32, spkID int32, oneTime bool) *PreKeyBundle {
	spk := NewECKeyPair()
	var random [64]byte
	sig := curve25519sign.Sign(p.st.own.PrivateKey.Key(), spk.PublicKey.Serialize(), random)
	p.st.StoreSignedPreKey(uint32(spkID), NewSignedPreKeyRecord(uint32(spkID), 1, spk, sig[:]))
	var pub *ECPublicKey
	id := uint32(0)
	if oneTime {
		kp := NewECKeyPair()
		p.st.StorePreKey(pkID, NewPreKeyRecord(pkID, kp))
		pub, id = &kp.PublicKey, pkID
	}
	b, err := NewPreKeyBundle(p.st.reg, vfDev, id, pub, spkID, &spk.PublicKey, sig[:], &p.st.own.PublicKey)
	if err != nil {
		panic(err)
	}
	return b
}

// start builds p's session with peer from peer's bundle.
func (p *vfParty) start(peer *vfParty, b *PreKeyBundle) error {
	return NewSessionBuilder(p.st, p.st, p.st, p.st, peer.name, vfDev).BuildSenderSession(b)
}

type vfMsg struct {
	from, to *vfParty
	raw      []byte
	typ      int32
	pt       []byte
}

func (p *vfParty) send(to *vfParty, pt []byte) *vfMsg {
	raw, typ, err := p.cipher(to.name).SessionEncryptMessage(append([]byte{}, pt...))
	vfAssert(err == nil, "encrypting succeeds")
	return &vfMsg{p, to, raw, typ, pt}
}

// deliver decrypts the raw bytes of a message as its type says.
func (m *vfMsg) deliver() ([]byte, error) { return vfDeliver(m.from, m.to, m.typ, m.raw) }

func vfDeliver(from, to *vfParty, typ int32, raw []byte) ([]byte, error) {
	b := append([]byte{}, raw...)
	if typ == 3 {
		pm, err := LoadPreKeyWhisperMessage(b)
		if err != nil {
			return nil, err
		}
		return to.cipher(from.name).SessionDecryptPreKeyWhisperMessage(pm)
	}
	wm, err := LoadWhisperMessage(b)
	if err != nil {
		return nil, err
	}
	return to.cipher(from.name).SessionDecryptWhisperMessage(wm)
}

// ok delivers m and asserts that it decrypts to exactly what was sent.
func (m *vfMsg) ok(label string) {
	got, err := m.deliver()
	vfAssert(err == nil, label+": accepted")
	if err == nil {
		vfAssert(vfEq(got, m.pt), label+": exact plaintext")
	}
}

// refused delivers m and asserts that it is refused without plaintext.
func (m *vfMsg) refused(label string) {
	got, err := m.deliver()
	vfAssert(vfAnd(err != nil, len(got) == 0), label)
}

// vfSnap is a copy of everything stored.
type vfSnap struct {
	sess, ids map[string][]byte
	pk, spk   map[uint32][]byte
}

func (p *vfParty) snap() *vfSnap {
	s := &vfSnap{map[string][]byte{}, map[string][]byte{}, map[uint32][]byte{}, map[uint32][]byte{}}
	for k, v := range p.st.sess {
		s.sess[k] = append([]byte{}, v...)
	}
	for k, v := range p.st.ids {
		s.ids[k] = append([]byte{}, v...)
	}
	for k, v := range p.st.pk {
		s.pk[k] = append([]byte{}, v...)
	}
	for k, v := range p.st.spk {
		s.spk[k] = append([]byte{}, v...)
	}
	return s
}

func vfSameS(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for k, v := range a {
		w, ok := b[k]
		r = vfAnd(r, ok, vfEq(v, w))
	}
	return r
}
func vfSameU(a, b map[uint32][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for k, v := range a {
		w, ok := b[k]
		r = vfAnd(r, ok, vfEq(v, w))
	}
	return r
}

// unchanged: everything stored is as in the snapshot.
func (p *vfParty) unchanged(s *vfSnap, label string) {
	n := p.snap()
	vfAssert(vfSameS(s.sess, n.sess), label+": stored sessions unchanged")
	vfAssert(vfSameS(s.ids, n.ids), label+": trusted identities unchanged")
	vfAssert(vfAnd(vfSameU(s.pk, n.pk), vfSameU(s.spk, n.spk)), label+": prekeys unchanged")
}

// vfDistinct assumes that keys drawn at random are different.
func vfDistinct(ps ...*vfParty) {
	for i, p := range ps {
		for _, q := range ps[:i] {
			vfAssume(!vfEq(p.st.own.PublicKey.Key()[:], q.st.own.PublicKey.Key()[:]))
		}
	}
}

// vfInner takes an ordinary message apart: version byte, fields, code.
func vfInner(raw []byte) (byte, *vfpb.SignalMessage, []byte) {
	sm := &vfpb.SignalMessage{}
	if err := vfproto.Unmarshal(raw[1:len(raw)-8], sm); err != nil {
		panic(err)
	}
	return raw[0], sm, append([]byte{}, raw[len(raw)-8:]...)
}

// vfOuter takes a prekey message apart.
func vfOuter(raw []byte) *vfpb.PreKeySignalMessage {
	pm := &vfpb.PreKeySignalMessage{}
	if err := vfproto.Unmarshal(raw[1:], pm); err != nil {
		panic(err)
	}
	return pm
}

func vfJoin(ver byte, sm *vfpb.SignalMessage, mac []byte) []byte {
	b, err := vfproto.Marshal(sm)
	if err != nil {
		panic(err)
	}
	return append(append([]byte{ver}, b...), mac...)
}
func vfJoinOuter(pm *vfpb.PreKeySignalMessage) []byte {
	b, err := vfproto.Marshal(pm)
	if err != nil {
		panic(err)
	}
	return append([]byte{0x33}, b...)
}

// vfRecord is the stored session of p with peer.
func vfRecord(p *vfParty, peer string) *vfpb.RecordStructure {
	r := &vfpb.RecordStructure{}
	if err := vfproto.Unmarshal(append([]byte{}, p.st.sess[vfSessKey(peer, vfDev)]...), r); err != nil {
		panic(err)
	}
	return r
}

// vfPair: a session in which both sides have already exchanged messages.
func vfPair() (*vfParty, *vfParty) {
	a, b := vfNewParty("alice", 11), vfNewParty("bob", 22)
	vfAssert(a.start(b, b.bundle(7, 5, true)) == nil, "session started")
	a.send(b, []byte("hello")).ok("opening")
	b.send(a, []byte("hi")).ok("answer")
	return a, b
}

// vfAdvance puts the chain from p to q at counter i, on both sides, as if i
// messages had been sent and read. (Chains that have not begun are left out.)
func vfAdvance(p, q *vfParty, i uint32) {
	r := vfRecord(p, q.name)
	key := r.CurrentSession.SenderChain.SenderRatchetKey
	r.CurrentSession.SenderChain.ChainKey.Index = i
	vfPutRecord(p, q.name, r)
	r = vfRecord(q, p.name)
	for _, c := range r.CurrentSession.ReceiverChains {
		if vfEq(c.SenderRatchetKey, key) {
			c.ChainKey.Index = i
		}
	}
	vfPutRecord(q, p.name, r)
}

func vfPutRecord(p *vfParty, peer string, r *vfpb.RecordStructure) {
	b, err := vfproto.Marshal(r)
	if err != nil {
		panic(err)
	}
	p.st.sess[vfSessKey(peer, vfDev)] = b
}

// vfPast is what may have happened between two parties before.
func vfPast(a, b *vfParty) {
	n := vfChoose("past", 6)
	if n == 3 || n == 5 { // the peer began
		vfAssert(b.start(a, a.bundle(110, 111, true)) == nil, "an earlier session")
		b.send(a, []byte("first")).ok("an earlier message")
	}
	if n == 1 || n == 2 || n == 5 {
		for i := 0; i < n && i < 2; i++ {
			vfAssert(a.start(b, b.bundle(uint32(100+2*i), int32(101+2*i), i == 0)) == nil, "an earlier session")
			a.send(b, []byte("first")).ok("an earlier message")
		}
		b.send(a, []byte("answer")).ok("an earlier answer")
	}
	if n == 4 || n == 5 { // both begin, unanswered; something is on its way
		ba, bb := a.bundle(120, 121, true), b.bundle(122, 123, true)
		vfAssert(a.start(b, bb) == nil && b.start(a, ba) == nil, "an earlier session")
		a.send(b, []byte("lost"))
		x, y := a.send(b, []byte("x")), b.send(a, []byte("y"))
		x.ok("an earlier message")
		y.ok("an earlier message")
	}
}
