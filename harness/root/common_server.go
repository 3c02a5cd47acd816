package textsecure

//vf:use store
//vf:use transport/fake

import (
	"github.com/signal-golang/textsecure/axolotl"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// vfClient sets the package up as a registered client whose store is in dir
// and whose connections all reach the fake server.
func vfClient(dir string, answer func(r *vftransport.VfReq) vftransport.VfAnswer) (*store, *vftransport.VfServer) {
	textSecureStore = vfOpen(dir, "")
	identityKey = axolotl.GenerateIdentityKeyPair()
	if textSecureStore.SetIdentityKeyPair(identityKey) != nil {
		panic("identity key not stored")
	}
	srv := &vftransport.VfServer{Answer: answer}
	vftransport.VfFake(srv)
	return textSecureStore, srv
}
