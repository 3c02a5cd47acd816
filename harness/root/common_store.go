package textsecure

import (
	"os"
	"path/filepath"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	vfpbs "github.com/signal-golang/textsecure/axolotl/protobuf"
	vfconfig "github.com/signal-golang/textsecure/config"
)

// vfOpen opens the store in dir; the salt is fixed so that the keys derived
// from the password are.
func vfOpen(dir, password string) *store {
	salt := filepath.Join(dir, "salt")
	if _, err := os.Stat(salt); err != nil {
		os.WriteFile(salt, []byte("saltsalt"), 0600)
	}
	s, err := newStore(password, dir)
	if err != nil {
		panic("store does not open: " + err.Error())
	}
	vfconfig.ConfigFile = &vfconfig.Config{}
	return s
}

// The stored files other than the salt.
func vfFiles(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && filepath.Base(p) != "salt" {
			out = append(out, p)
		}
		return nil
	})
	return out
}

// vfSession is a session record with distinguishable content.
func vfSession(tag []byte) *axolotl.SessionRecord {
	b, err := proto.Marshal(&vfpbs.RecordStructure{CurrentSession: &vfpbs.SessionStructure{SessionVersion: 3, LocalRegistrationId: 7,
		RootKey: tag, AliceBaseKey: []byte{5}, LocalIdentityPublic: append([]byte{5}, make([]byte, 32)...), RemoteIdentityPublic: append([]byte{5}, make([]byte, 32)...)}})
	if err != nil {
		panic(err.Error())
	}
	r, err := axolotl.LoadSessionRecord(b)
	if err != nil {
		panic("session record: " + err.Error())
	}
	return r
}

const vfPeer = "0a1b2c3d-4e5f-4a6b-8c7d-9e0f1a2b3c4d"

// A vfKind is one kind of stored value: how it is saved and how it is read
// back as bytes (n bytes of content, chosen by the caller).
type vfKind struct {
	name string
	n    int
	put  func(s *store, v []byte) error
	get  func(s *store) ([]byte, error)
}

func vfPreKeyRec(id uint32, v []byte) *axolotl.PreKeyRecord {
	kp := axolotl.NewECKeyPair()
	copy(kp.PrivateKey.Key()[:], v)
	return axolotl.NewPreKeyRecord(id, kp)
}

var vfKinds = []vfKind{
	{"session", 32, func(s *store, v []byte) error { return s.StoreSession(vfPeer, 2, vfSession(v)) },
		func(s *store) ([]byte, error) {
			r, err := s.LoadSession(vfPeer, 2)
			if err != nil {
				return nil, err
			}
			return r.Serialize()
		}},
	{"identity key pair", 64, func(s *store, v []byte) error {
		return s.SetIdentityKeyPair(axolotl.NewIdentityKeyPairFromKeys(v[:32], v[32:]))
	}, func(s *store) ([]byte, error) {
		k, err := s.GetIdentityKeyPair()
		if err != nil {
			return nil, err
		}
		return append(append([]byte{}, k.PrivateKey.Key()[:]...), k.PublicKey.Key()[:]...), nil
	}},
	{"identity", 32, func(s *store, v []byte) error { return s.SaveIdentity(vfPeer, axolotl.NewIdentityKey(v)) },
		func(s *store) ([]byte, error) { return s.readFile(filepath.Join(s.identityDir, "remote_"+vfPeer)) }},
	{"prekey", 32, func(s *store, v []byte) error { return s.StorePreKey(5, vfPreKeyRec(5, v)) },
		func(s *store) ([]byte, error) {
			r, err := s.LoadPreKey(5)
			if err != nil {
				return nil, err
			}
			return r.Serialize()
		}},
	{"signed prekey", 32, func(s *store, v []byte) error {
		kp := axolotl.NewECKeyPair()
		copy(kp.PrivateKey.Key()[:], v)
		return s.StoreSignedPreKey(6, axolotl.NewSignedPreKeyRecord(6, 1, kp, make([]byte, 64)))
	}, func(s *store) ([]byte, error) {
		r, err := s.LoadSignedPreKey(6)
		if err != nil {
			return nil, err
		}
		return r.Serialize()
	}},
	{"registration id", 2, func(s *store, v []byte) error {
		s.SetLocalRegistrationID(uint32(v[0])<<8 | uint32(v[1])) // 14 bits on the wire
		return nil
	}, func(s *store) ([]byte, error) {
		n, err := s.GetLocalRegistrationID()
		return []byte{byte(n >> 8), byte(n)}, err
	}},
	{"password", 12, func(s *store, v []byte) error { s.storeHTTPPassword(string(v)); return nil },
		func(s *store) ([]byte, error) { p, err := s.loadHTTPPassword(); return []byte(p), err }},
	{"signaling key", 52, func(s *store, v []byte) error { s.storeHTTPSignalingKey(v); return nil },
		func(s *store) ([]byte, error) { return s.loadHTTPSignalingKey() }},
}
