package groupsv2

import (
	"encoding/base64"
	"fmt"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	vftransport "github.com/signal-golang/textsecure/transport"
)

// vfService is a group server which signs and issues credentials as the one
// the client knows does, and holds one group.
type vfService struct {
	*vfSealed
	*vftransport.VfServer
	group   *signalservice.Group
	status  int    // of answers with the group
	raw     []byte // in place of the group
	patch   int    // status of answers to changes
	after   *signalservice.Group
	changes []*signalservice.GroupChange_Actions
	refused int
}

func vfPlain(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func vfServe(key []byte) *vfService {
	s := &vfService{vfSealed: vfSealer(key), VfServer: vfGroups(), status: 200, patch: 200}
	pub, err := s.server.PublicParams()
	vfMust(err)
	config.ZKGROUP_SERVER_PUBLIC_PARAMS = vfPlain(pub)
	s.Answer = s.answer
	return s
}

func (s *vfService) sign(actions []byte) []byte {
	sig, err := s.server.SignDeterministic(make([]byte, 32), actions)
	vfMust(err)
	return sig
}

// known tells whether a request comes from the user: its credential is one
// of the server's, for the group and for today.
func (s *vfService) known(r *vftransport.VfReq) bool {
	a := r.Header.Get("Authorization")
	if !strings.HasPrefix(a, "Basic ") {
		return false
	}
	b, err := base64.StdEncoding.DecodeString(a[6:])
	if err != nil {
		return false
	}
	pub, err := s.params.PublicParams()
	vfMust(err)
	up := strings.SplitN(string(b), ":", 2)
	if len(up) != 2 || up[0] != idToHex(pub) {
		return false
	}
	raw := make([]byte, len(up[1])/2)
	for i := range raw {
		raw[i] = byte(strings.IndexByte("0123456789abcdef", up[1][2*i])<<4 | strings.IndexByte("0123456789abcdef", up[1][2*i+1]))
	}
	if len(raw) == 0 {
		return false
	}
	p, err := zkgroup.NewAuthCredentialPresentation(raw)
	if err != nil || zkgroup.NewServerZkAuthOperations(s.server).VerifyAuthCredentialPresentation(pub, p) != nil {
		return false
	}
	day, err := p.RedemptionTime()
	if today := uint32(time.Now().Unix() / 86400); err != nil || day != today && day+1 != today {
		return false
	}
	id, err := p.UUIDCiphertext()
	return err == nil && string(id) == string(s.id(0))
}

func (s *vfService) answer(r *vftransport.VfReq) vftransport.VfAnswer {
	if r.Which == "main" && strings.Contains(r.URL, "/v1/certificate/group/") {
		today := time.Now().Unix() / 86400
		var l []string
		for d := today - 1; d <= today+1; d++ {
			c, err := zkgroup.NewServerZkAuthOperations(s.server).IssueAuthCredential(vfID(0), uint32(d))
			vfMust(err)
			l = append(l, fmt.Sprintf(`{"credential":"%s","redemptionTime":%d}`, vfPlain(c), d))
		}
		return vftransport.VfAnswer{Status: 200, Body: []byte(`{"credentials":[` + strings.Join(l, ",") + `]}`)}
	}
	if r.Which != "storage" || !strings.HasSuffix(r.URL, "/v1/groups/") || !s.known(r) {
		s.refused++
		return vftransport.VfAnswer{Status: 401}
	}
	if r.Method == "PATCH" {
		a := &signalservice.GroupChange_Actions{}
		if proto.Unmarshal(r.Body, a) != nil {
			return vftransport.VfAnswer{Status: 400}
		}
		s.changes = append(s.changes, a)
		if s.patch == 200 {
			s.group = s.after
		}
		return vftransport.VfAnswer{Status: s.patch}
	}
	if s.status != 200 || s.raw != nil {
		return vftransport.VfAnswer{Status: s.status, Body: s.raw}
	}
	b, err := proto.Marshal(s.group)
	vfMust(err)
	return vftransport.VfAnswer{Status: 200, Body: b}
}

// state is the group at a revision, with the members listed.
func (s *vfService) state(title string, revision uint32, members ...int) *signalservice.Group {
	g := &signalservice.Group{Revision: revision, Title: s.blob(title)}
	for _, i := range members {
		g.Members = append(g.Members, &signalservice.Member{UserId: s.id(i), ProfileKey: s.profileKey(i), Role: signalservice.Member_DEFAULT})
	}
	return g
}

// credential is the user's profile key credential.
func (s *vfService) credential() []byte {
	pub, err := s.server.PublicParams()
	vfMust(err)
	ctx, err := zkgroup.CreateProfileKeyCredentialRequestContext(pub, vfID(0), vfProfileKey(0))
	vfMust(err)
	req, err := ctx.ProfileKeyCredentialRequestContextGetRequest()
	vfMust(err)
	commitment, err := zkgroup.ProfileKeyGetCommitment(vfProfileKey(0), vfID(0))
	vfMust(err)
	resp, err := zkgroup.NewServerZkProfileOperations(s.server).IssueProfileKeyCredential(req, vfID(0), commitment)
	vfMust(err)
	cred, err := pub.ReceiveProfileKeyCredential(ctx, resp)
	vfMust(err)
	return cred
}
