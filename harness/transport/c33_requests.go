package transport

//vf:use fake

import (
	"crypto/x509"
	"encoding/base64"
	"net/http"

	"github.com/signal-golang/textsecure/rootCa"
)

// C33: requests carry the configured identity, and statuses are read right.

var vfServer33 = []string{"https://main.example", "http://localhost:8080"}

// vfSetup makes the transporter of one kind with the given configuration.
func vfSetup(kind int, base, user, pass, agent, proxy string) (*httpTransporter, *x509.CertPool) {
	switch kind {
	case 0:
		SetupTransporter(base, user, pass, agent, proxy)
		return Transport.(*httpTransporter), rootCa.RootCA
	case 1:
		SetupCDNTransporter(base, user, pass, agent, proxy)
		return CdnTransport, rootCa.RootCA
	case 2:
		SetupDirectoryTransporter(base, user, pass, agent, proxy)
		return DirectoryTransport, rootCa.DirectoryCA
	case 3:
		SetupStorageTransporter(base, user, pass, agent, proxy)
		return StorageTransport, rootCa.DirectoryCA
	}
	SetupServiceTransporter(base, user, pass, agent, proxy)
	return ServiceTransport, rootCa.DirectoryCA
}

// vfText is a string of n printable characters.
func vfText(name string, n int) string {
	s := vfString(name, n)
	for i := 0; i < len(s); i++ {
		vfAssume(vfAnd(s[i] > ' ', s[i] < 0x7f))
	}
	return s
}

// Method, path, body, user agent and credentials are the ones asked for and
// configured, and the status decides whether the answer is an error.
func VC33_Request() {
	where := vfChoose("server", 2)
	base := vfServer33[where]
	agent, proxy := vfText("agent", 2*vfChoose("agent set", 2)), []string{"", "http://proxy.example:3128"}[vfChoose("proxy", 2)]
	user, pass := vfText("user", 2), vfText("password", 2)
	ht, _ := vfSetup(vfChoose("kind", 5), base, user, pass, agent, proxy)
	status := vfInt("status", 100, 999)
	answer := vfBytes("answer", 2)
	srv := &VfServer{Answer: func(r *VfReq) VfAnswer {
		return VfAnswer{Status: status, Body: answer, Header: map[string]string{"Set-Cookie": "c=1"}}
	}}
	vfInto(ht, srv, "")
	path := []string{"/v1/x", "/v2/keys/a-b/1?relay=r"}[where]
	body := vfBytes("body", 3*vfChoose("body given", 2))
	auth := "Basic " + vfText("auth", 1)
	key := vfBytes("access key", 3)
	basic := "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
	method, ct, withBody := "PUT", "", true
	var r *response
	var err error
	switch vfChoose("call", 13) {
	case 0:
		method, withBody, auth = "GET", false, basic
		r, err = ht.Get(path)
	case 1:
		method, withBody, auth = "DELETE", false, basic
		r, err = ht.Del(path)
	case 2:
		ct, auth = "text/x", basic
		r, err = ht.Put(path, body, ct)
	case 3:
		method, ct, auth = "POST", "text/x", basic
		r, err = ht.PostWithHeaders(path, body, ct, map[string]string{"X-Given": "v", "Authorization": "Basic other"})
		vfAssert(err != nil || len(srv.Log) == 1 && srv.Log[0].Header.Get("X-Given") == "v", "headers asked for are sent")
	case 4:
		ct = "text/x"
		r, err = ht.PutWithAuth(path, body, ct, auth)
	case 5:
		method, ct = "PATCH", "text/x"
		r, err = ht.PatchWithAuth(path, body, ct, auth)
	case 6:
		ct, auth = "application/json", basic
		r, err = ht.PutJSON(path, body)
	case 7:
		ct, auth = "application/octet-stream", basic
		r, err = ht.PutBinary(path, body)
	case 8:
		ct = "application/json; charset=utf-8"
		r, err = ht.PutJSONWithAuth(path, body, auth)
	case 9:
		ct, auth = "application/json; charset=utf-8", ""
		r, err = ht.PutJSONWithUnidentifiedSender(path, body, key)
	case 10:
		method, withBody, auth = "GET", false, ""
		r, err = ht.GetWithUnidentifiedAccessKey(path, key)
	case 11:
		method, withBody = "GET", false
		r, err = ht.GetWithAuth(path, auth)
	case 12:
		ct = "application/json; charset=utf-8"
		r, err = ht.PutJSONWithAuthCookies(path, body, auth, "c=2")
	}
	if err != nil {
		vfAssert(false, "the request is sent")
		return
	}
	vfAssert(len(srv.Log) == 1, "one request is sent")
	q := srv.Log[0]
	vfAssert(q.Method == method, "the method is the one asked for")
	vfAssert(q.URL == base+path, "the request goes to the configured server and path")
	vfAssert(q.Header.Get("X-Signal-Agent") == agent, "the user agent is the configured one")
	vfAssert(q.Header.Get("Authorization") == auth, "the credentials are the ones given or configured")
	if auth == "" {
		vfAssert(q.Header.Get("Unidentified-Access-Key") == base64.StdEncoding.EncodeToString(key), "the access key is the one given")
	}
	if withBody {
		vfAssert(vfEq(q.Body, body), "the body is the one given")
		vfAssert(q.Header.Get("Content-Type") == ct, "the content type is the one given")
	} else {
		vfAssert(len(q.Body) == 0, "no body is sent")
	}
	vfAssert(r.IsError() == vfOr(status < 200, status > 299), "an answer is an error exactly outside 200-299")
	vfAssert(r.Status == status, "the status is the answer's")
	vfReach("sent")
}

// Connections use the configured proxy and trust the given root certificate
// only.
func VC33_Connection() {
	proxy := []string{"", "http://proxy.example:3128", "socks5://127.0.0.1:9050"}[vfChoose("proxy", 3)]
	ht, ca := vfSetup(vfChoose("kind", 5), "https://main.example", "u", "p", []string{"", "agent"}[vfChoose("agent", 2)], proxy)
	tr, ok := ht.client.Transport.(*http.Transport)
	if !ok {
		return
	}
	req, _ := http.NewRequest("GET", "https://main.example/v1/x", nil)
	if proxy != "" {
		if tr.Proxy == nil {
			vfAssert(false, "the configured proxy is used")
			return
		}
		u, err := tr.Proxy(req)
		vfAssert(vfAnd(err == nil, u != nil), "the configured proxy is used")
		if u != nil {
			vfAssert(u.String() == proxy, "the proxy is the configured one")
		}
	} else if tr.Proxy != nil {
		u, _ := tr.Proxy(req)
		vfAssert(u == nil, "no proxy is used when none is configured")
	}
	c := tr.TLSClientConfig
	vfAssert(c != nil, "the connection has a TLS configuration")
	if c != nil {
		vfAssert(c.RootCAs == ca, "the root certificate is the given one")
		vfAssertExcept(!c.InsecureSkipVerify, "the server's certificate is verified", "no-certificate-check", true)
	}
	vfReach("configured")
}
