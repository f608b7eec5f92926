package hx

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
)

// Req is one request as a server reads it from the wire. The parser shares no
// code with the repository.
type Req struct {
	Binary bool
	Cmd    string   // first word, or "bin"
	Args   []string // text: the other words
	Opcode byte
	Key    string
	Value  []byte
	Extras []byte
	Cas    uint64
	Opaque uint32
	Raw    []byte
}

// Keys of the request.
func (q *Req) Keys() []string {
	if q.Binary {
		return []string{q.Key}
	}
	switch q.Cmd {
	case "get", "gets":
		return q.Args
	case "mn", "version", "flush_all":
		return nil
	}
	if len(q.Args) > 0 {
		return q.Args[:1]
	}
	return nil
}

// ReadReq reads one request of either protocol.
func ReadReq(r *bufio.Reader) (*Req, error) {
	b, err := r.Peek(1)
	if err != nil {
		return nil, err
	}
	if b[0] == 0x80 {
		h := make([]byte, 24)
		if _, err := io.ReadFull(r, h); err != nil {
			return nil, err
		}
		kl, el, tl := int(binary.BigEndian.Uint16(h[2:])), int(h[4]), int(binary.BigEndian.Uint32(h[8:]))
		if kl+el > tl || tl > 64<<20 {
			return nil, fmt.Errorf("bad lengths key=%d extras=%d total=%d", kl, el, tl)
		}
		body := make([]byte, tl)
		if _, err := io.ReadFull(r, body); err != nil {
			return nil, err
		}
		return &Req{Binary: true, Cmd: "bin", Opcode: h[1], Opaque: binary.BigEndian.Uint32(h[12:]), Cas: binary.BigEndian.Uint64(h[16:]),
			Extras: body[:el], Key: string(body[el : el+kl]), Value: body[el+kl:], Raw: append(h, body...)}, nil
	}
	l, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	q := &Req{Raw: []byte(l)}
	f := strings.FieldsFunc(strings.TrimRight(l, "\r\n"), func(r rune) bool { return r == ' ' })
	if len(f) == 0 {
		return nil, fmt.Errorf("empty request")
	}
	q.Cmd, q.Args = f[0], f[1:]
	if len(q.Args) > 0 {
		q.Key = q.Args[0]
	}
	n := -1
	switch q.Cmd {
	case "set", "add", "replace", "cas":
		if len(q.Args) < 4 {
			return nil, fmt.Errorf("bad request %q", l)
		}
		n, err = strconv.Atoi(q.Args[3])
	case "ms":
		if len(q.Args) < 2 {
			return nil, fmt.Errorf("bad request %q", l)
		}
		n, err = strconv.Atoi(q.Args[1])
	}
	if err != nil || n > 64<<20 {
		return nil, fmt.Errorf("bad request %q", l)
	}
	if n >= 0 {
		buf := make([]byte, n+2)
		if _, err := io.ReadFull(r, buf); err != nil {
			return nil, err
		}
		if string(buf[n:]) != "\r\n" {
			return nil, fmt.Errorf("bad data block")
		}
		q.Value = buf[:n]
		q.Raw = append(q.Raw, buf...)
	}
	return q, nil
}

// BinReply encodes a binary reply.
func BinReply(opcode byte, status uint16, opaque uint32, cas uint64, extras []byte, key string, value []byte) []byte {
	h := make([]byte, 24)
	h[0], h[1] = 0x81, opcode
	binary.BigEndian.PutUint16(h[2:], uint16(len(key)))
	h[4] = byte(len(extras))
	binary.BigEndian.PutUint16(h[6:], status)
	binary.BigEndian.PutUint32(h[8:], uint32(len(extras)+len(key)+len(value)))
	binary.BigEndian.PutUint32(h[12:], opaque)
	binary.BigEndian.PutUint64(h[16:], cas)
	h = append(h, extras...)
	h = append(h, key...)
	return append(h, value...)
}

// FakeServer accepts unix connections and hands each to a function.
type FakeServer struct {
	Addr string
	l    net.Listener
	mu   sync.Mutex
	fn   func(net.Conn)
	conn map[net.Conn]struct{}
	wg   sync.WaitGroup
}

// NewFakeServer listens; serve is called for every connection and the
// connection is closed when it returns.
func NewFakeServer(serve func(net.Conn)) *FakeServer {
	f := &FakeServer{Addr: NextPath("f"), fn: serve, conn: map[net.Conn]struct{}{}}
	os.Remove(f.Addr)
	l, err := net.Listen("unix", f.Addr)
	if err != nil {
		Infra("fake server: %v", err)
	}
	f.l = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			f.mu.Lock()
			f.conn[c] = struct{}{}
			fn := f.fn
			f.mu.Unlock()
			f.wg.Add(1)
			go func() {
				defer f.wg.Done()
				fn(c)
				c.Close()
				f.mu.Lock()
				delete(f.conn, c)
				f.mu.Unlock()
			}()
		}
	}()
	return f
}

// Serve replaces the function for the connections to come.
func (f *FakeServer) Serve(fn func(net.Conn)) { f.mu.Lock(); f.fn = fn; f.mu.Unlock() }

// CutAll closes the open connections.
func (f *FakeServer) CutAll() {
	f.mu.Lock()
	for c := range f.conn {
		c.Close()
	}
	f.mu.Unlock()
}

// Close ends everything.
func (f *FakeServer) Close() { f.l.Close(); f.CutAll(); os.Remove(f.Addr) }

// Script is a fake server that answers requests with a function, one call per
// request; a nil answer with ok false closes the connection.
func Script(answer func(q *Req) (reply []byte, ok bool)) func(net.Conn) {
	return func(c net.Conn) {
		r := bufio.NewReaderSize(c, 1<<16)
		for {
			q, err := ReadReq(r)
			if err != nil {
				return
			}
			b, ok := answer(q)
			if len(b) > 0 {
				if _, err := c.Write(b); err != nil {
					return
				}
			}
			if !ok {
				return
			}
		}
	}
}
