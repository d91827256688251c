// Package srv is a scripted server on the loopback interface.
package srv

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/pbt"
	"verif/harness/resp"
)

type Server struct {
	Addr     string
	l        net.Listener
	mu       sync.Mutex
	conns    []*Conn
	wg       sync.WaitGroup
	accepted atomic.Int64
	Open     atomic.Int64 // connections open now
	MaxOpen  atomic.Int64
	closed   atomic.Bool
	handler  func(*Conn)
}

type Conn struct {
	net.Conn
	ID   int
	R    *bufio.Reader
	Cuts []int // sizes of successive writes
	dead atomic.Bool
	s    *Server
}

// Listen starts a server; every connection is handled by h on its own goroutine and closed when h returns.
func Listen(h func(*Conn)) (*Server, error) {
	return ListenAt(host()+":0", h)
}

// host is an address of this process alone, so that concurrently running shards never reach each other's servers.
var host = sync.OnceValue(func() string {
	p := os.Getpid()
	a := fmt.Sprintf("127.%d.%d.%d", 1+p>>14&0x7f, p>>7&0x7f, 2+p&0x7f)
	l, err := net.Listen("tcp", a+":0")
	if err != nil {
		return "127.0.0.1"
	}
	l.Close()
	return a
})

func ListenAt(addr string, h func(*Conn)) (*Server, error) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, pbt.Inconclusive{Msg: "listen: " + err.Error()}
	}
	s := &Server{Addr: l.Addr().String(), l: l, handler: h}
	s.wg.Add(1)
	go s.accept()
	return s, nil
}

func (s *Server) accept() {
	defer s.wg.Done()
	for {
		c, err := s.l.Accept()
		if err != nil {
			if s.closed.Load() {
				return
			}
			time.Sleep(time.Millisecond)
			continue
		}
		n := s.Open.Add(1)
		for {
			m := s.MaxOpen.Load()
			if n <= m || s.MaxOpen.CompareAndSwap(m, n) {
				break
			}
		}
		cc := &Conn{Conn: c, ID: int(s.accepted.Add(1)) - 1, R: bufio.NewReader(c), s: s}
		s.mu.Lock()
		if s.closed.Load() {
			s.mu.Unlock()
			cc.Abort()
			return
		}
		s.conns = append(s.conns, cc)
		s.wg.Add(1)
		s.mu.Unlock()
		go func() {
			defer s.wg.Done()
			s.handler(cc)
			cc.End()
		}()
	}
}

func (s *Server) Accepted() int { return int(s.accepted.Load()) }

// End closes gracefully.
func (c *Conn) End() {
	if c.dead.CompareAndSwap(false, true) {
		c.s.Open.Add(-1)
		c.Conn.Close()
	}
}

// EndWrite ends what is sent and goes on receiving: closing while bytes arrive would make a reset of it, which discards
// what the peer has not read.
func (c *Conn) EndWrite() {
	if t, ok := c.Conn.(*net.TCPConn); ok {
		_ = t.CloseWrite()
	}
}

// Abort closes with a reset.
func (c *Conn) Abort() {
	if c.dead.CompareAndSwap(false, true) {
		c.s.Open.Add(-1)
		if t, ok := c.Conn.(*net.TCPConn); ok {
			_ = t.SetLinger(0)
		}
		c.Conn.Close()
	}
}

// StopListening refuses new connections, existing ones stay.
func (s *Server) StopListening() {
	s.closed.Store(true)
	s.l.Close()
}

// AbortAll breaks all connections.
func (s *Server) AbortAll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.Abort()
	}
}

// Close ends everything and waits for the handlers.
func (s *Server) Close() {
	s.mu.Lock()
	s.closed.Store(true)
	s.mu.Unlock()
	s.l.Close()
	s.AbortAll()
	s.wg.Wait()
}

// Put writes in the pieces the connection's cuts say.
func (c *Conn) Put(b []byte) error {
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if len(c.Cuts) > 0 {
			if k := c.Cuts[i%len(c.Cuts)]; k < n {
				n = k
			}
			if i > 200 { // bounded number of pieces
				n = len(b)
			}
		}
		if _, err := c.Conn.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func (c *Conn) Send(m resp.Msg) error { return c.Put(m.Encode(nil)) }

// Request reads one request.
func (c *Conn) Request() ([]string, error) {
	m, err := resp.Read(c.R)
	if err != nil {
		return nil, err
	}
	args, ok := m.Args()
	if !ok || len(args) == 0 {
		return nil, fmt.Errorf("not a request: %v", m)
	}
	return args, nil
}
