package hx

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// MemListener hands in-memory connections to a server, so that every read
// the server makes returns exactly the segment that was generated.
type MemListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func NewMemListener() *MemListener {
	return &MemListener{ch: make(chan net.Conn), done: make(chan struct{})}
}

func (l *MemListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *MemListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *MemListener) Addr() net.Addr { return memAddr{} }

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem" }

// Connect gives the server a connection with these segments to come, after
// which the client side is at its end (but still reads).
func (l *MemListener) Connect(segments [][]byte) *MemConn {
	c := &MemConn{in: segments, eof: true, closed: make(chan struct{})}
	c.cond = sync.NewCond(&c.mu)
	l.Give(c)
	return c
}

// Give hands a connection to the server.
func (l *MemListener) Give(c net.Conn) {
	select {
	case l.ch <- c:
	case <-time.After(30 * time.Second):
		Violated("the server stopped accepting connections")
	}
}

// MemConn is the server's side of an in-memory connection.
type MemConn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     [][]byte
	eof    bool
	out    []byte
	shut   bool
	closed chan struct{}
}

func (c *MemConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.shut {
			return 0, net.ErrClosed
		}
		if len(c.in) > 0 && len(c.in[0]) == 0 {
			c.in = c.in[1:]
			continue
		}
		if len(c.in) > 0 {
			n := copy(b, c.in[0])
			c.in[0] = c.in[0][n:]
			return n, nil
		}
		if c.eof {
			return 0, io.EOF
		}
		c.cond.Wait()
	}
}

func (c *MemConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.shut {
		return 0, net.ErrClosed
	}
	c.out = append(c.out, b...)
	return len(b), nil
}

func (c *MemConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.shut {
		return errors.New("already closed")
	}
	c.shut = true
	close(c.closed)
	c.cond.Broadcast()
	return nil
}

func (c *MemConn) LocalAddr() net.Addr              { return memAddr{} }
func (c *MemConn) RemoteAddr() net.Addr             { return memAddr{} }
func (c *MemConn) SetDeadline(time.Time) error      { return nil }
func (c *MemConn) SetReadDeadline(time.Time) error  { return nil }
func (c *MemConn) SetWriteDeadline(time.Time) error { return nil }

// Wait waits until the server closed the connection and returns what it
// wrote; ok is false when it does not close it.
func (c *MemConn) Wait() (out []byte, ok bool) {
	tm := time.NewTimer(CallLimit())
	defer tm.Stop()
	select {
	case <-c.closed:
		ok = true
	case <-tm.C:
		hung.Store(true)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out, ok
}

// Cut splits a byte stream by a cyclic pattern of sizes; none means one piece.
func Cut(b []byte, sizes []int) [][]byte {
	if len(sizes) == 0 {
		return [][]byte{b}
	}
	var out [][]byte
	for i := 0; len(b) > 0; i++ {
		n := sizes[i%len(sizes)]
		if n > len(b) || i > 4000 {
			n = len(b)
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}
