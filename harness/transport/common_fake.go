package transport

import (
	"bufio"
	"bytes"
	"context"
	"io"
	"net"
	"net/http"
	"sync"
)

// VfReq is a request the fake server received, VfAnswer what it answers.
type VfReq struct {
	Which, Method, URL string
	Header             http.Header
	Body               []byte
}

type VfAnswer struct {
	Status int
	Body   []byte
	Header map[string]string
	Err    error
}

// VfServer is the fake server behind every connection; Which names the
// transport a request came through.
type VfServer struct {
	Log    []*VfReq
	Answer func(r *VfReq) VfAnswer
}

type vfConn struct {
	s     *VfServer
	which string
}

var vfCurrent *VfServer

func (c vfConn) RoundTrip(req *http.Request) (*http.Response, error) {
	r := &VfReq{Which: c.which, Method: req.Method, URL: req.URL.String(), Header: req.Header}
	if req.Body != nil {
		r.Body, _ = io.ReadAll(req.Body)
	}
	c.s.Log = append(c.s.Log, r)
	a := c.s.Answer(r)
	if a.Err != nil {
		return nil, a.Err
	}
	if a.Status == 0 {
		a.Status = 200
	}
	resp := &http.Response{StatusCode: a.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(a.Body)), ContentLength: int64(len(a.Body)), Request: req}
	for k, v := range a.Header {
		resp.Header.Set(k, v)
	}
	return resp, nil
}

// VfRoundTrip serves the connections that do not go through a transporter.
func VfRoundTrip(req *http.Request) (*http.Response, error) {
	return vfConn{vfCurrent, "direct"}.RoundTrip(req)
}

func vfDial(ctx context.Context, network, addr string) (net.Conn, error) {
	a, b := net.Pipe()
	go func() {
		defer b.Close()
		req, err := http.ReadRequest(bufio.NewReader(b))
		if err != nil {
			return
		}
		req.URL.Scheme, req.URL.Host = "https", req.Host
		resp, err := VfRoundTrip(req)
		if err == nil {
			resp.Close = true
			resp.Write(b)
		}
	}()
	return a, nil
}

func vfInto(t *httpTransporter, s *VfServer, which string) {
	t.client.Transport = vfConn{s, which}
}

// VfTake puts the fake server behind the transporters there are.
func VfTake(s *VfServer) {
	vfInto(Transport.(*httpTransporter), s, "main")
	vfInto(CdnTransport, s, "cdn")
	vfInto(DirectoryTransport, s, "directory")
	vfInto(StorageTransport, s, "storage")
	vfInto(ServiceTransport, s, "service")
}

// VfFake puts the fake server behind all connections.
func VfFake(s *VfServer) {
	vfCurrent = s
	SetupTransporter("https://main", "me", "pw", "agent", "")
	SetupCDNTransporter("https://cdn", "me", "pw", "agent", "")
	SetupDirectoryTransporter("https://directory", "me", "pw", "agent", "")
	SetupStorageTransporter("https://storage", "me", "pw", "agent", "")
	SetupServiceTransporter("https://service", "me", "pw", "agent", "")
	VfTake(s)
	t := http.DefaultTransport.(*http.Transport)
	t.DialTLSContext = vfDial
	t.ForceAttemptHTTP2 = false
}

// VfListen makes the fake server reachable at the address it gives: natively,
// it listens there for clients that set up their own transports.
func VfListen(s *VfServer, symbolic bool) string {
	vfCurrent = s
	if symbolic {
		return "http://127.0.0.1:1"
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	base := "http://" + l.Addr().String()
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		req.URL.Scheme, req.URL.Host = "http", req.Host
		resp, err := VfRoundTrip(req)
		if err != nil {
			panic(http.ErrAbortHandler)
		}
		for k, v := range resp.Header {
			w.Header()[k] = v
		}
		w.WriteHeader(resp.StatusCode)
		io.Copy(w, resp.Body)
	}))
	return base
}
