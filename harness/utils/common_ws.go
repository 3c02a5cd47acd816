package utils

import (
	"errors"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/gorilla/websocket"
)

// A VfWs is a websocket connection of the client, seen from the server. Under
// symbolic execution the client's websocket operations are the functions
// VfWsDial, VfWsRead, VfWsWrite and VfWsClose; natively the client talks to a
// real websocket server on the loopback interface.
type VfWs struct {
	URL    string
	in     chan []byte
	out    chan []byte
	gone   chan struct{}
	mu     sync.Mutex
	closed bool
	conn   *websocket.Conn
}

// VfWsServer is the server behind all connections: each is served by Serve.
type VfWsServer struct {
	Serve func(w *VfWs)
	Dials int
	// Refuse makes the server refuse connections.
	Refuse bool
	lis    net.Listener
	conns  []*VfWs
}

var vfWsServer *VfWsServer

var errVfWs = errors.New("websocket is gone")

// Read gives the next message of the client.
func (w *VfWs) Read() ([]byte, bool) {
	select {
	case b := <-w.in:
		return b, true
	case <-w.gone:
		return nil, false
	}
}

// Write sends a message to the client.
func (w *VfWs) Write(b []byte) {
	if w.conn != nil {
		w.conn.WriteMessage(websocket.BinaryMessage, b)
		return
	}
	select {
	case w.out <- b:
	case <-w.gone:
	}
}

// Close ends the connection after what was written has arrived.
func (w *VfWs) Close() {
	if w.conn != nil {
		w.conn.Close()
		return
	}
	w.out <- nil
}

// Reset ends the connection at once; what was written may be lost.
func (w *VfWs) Reset() {
	if w.conn != nil {
		if c, ok := w.conn.UnderlyingConn().(*net.TCPConn); ok {
			c.SetLinger(0)
		}
		w.conn.Close()
		return
	}
	w.end()
}

func (w *VfWs) end() {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.closed {
		w.closed = true
		close(w.gone)
	}
}

func newVfWs(url string) *VfWs {
	return &VfWs{URL: url, in: make(chan []byte, 16), out: make(chan []byte, 16), gone: make(chan struct{})}
}

func VfWsDial(url string) (*VfWs, error) {
	s := vfWsServer
	if s == nil || s.Refuse {
		return nil, errVfWs
	}
	s.Dials++
	w := newVfWs(url)
	s.conns = append(s.conns, w)
	go s.Serve(w)
	return w, nil
}

func VfWsRead(w *VfWs) (int, []byte, error) {
	select {
	case b := <-w.out:
		if b == nil {
			w.end()
			return -1, nil, errVfWs
		}
		return websocket.BinaryMessage, b, nil
	case <-w.gone:
		return -1, nil, errVfWs
	}
}

func VfWsWrite(w *VfWs, mt int, b []byte) error {
	w.mu.Lock()
	gone := w.closed
	w.mu.Unlock()
	if gone {
		return errVfWs
	}
	if mt == websocket.TextMessage || mt == websocket.BinaryMessage {
		select {
		case w.in <- append([]byte{}, b...):
		case <-w.gone:
			return errVfWs
		}
	}
	return nil
}

func VfWsClose(w *VfWs) error {
	w.end()
	return nil
}

// VfWsStart starts the server; natively it listens at addr, and gives the
// address it has.
func VfWsStart(s *VfWsServer, symbolic bool, addr string) string {
	vfWsServer = s
	if symbolic {
		return "websocket"
	}
	var err error
	for i := 0; i < 200; i++ {
		if s.lis, err = net.Listen("tcp", addr); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		panic("websocket server: " + err.Error())
	}
	var mu sync.Mutex
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	go http.Serve(s.lis, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if s.Refuse {
			rw.WriteHeader(500)
			return
		}
		c, err := up.Upgrade(rw, r, nil)
		if err != nil {
			return
		}
		w := newVfWs("ws://" + r.Host + r.URL.String())
		w.conn = c
		mu.Lock()
		s.Dials++
		s.conns = append(s.conns, w)
		mu.Unlock()
		go func() {
			for {
				_, b, err := c.ReadMessage()
				if err != nil {
					w.end()
					return
				}
				w.in <- b
			}
		}()
		s.Serve(w)
	}))
	return s.lis.Addr().String()
}

// VfWsStop ends the server and all connections.
func VfWsStop(s *VfWsServer) {
	s.Refuse = true
	if s.lis != nil {
		s.lis.Close()
	}
	for _, w := range s.conns {
		if w.conn != nil {
			w.conn.Close()
		}
		w.end()
	}
}
