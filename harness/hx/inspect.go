package hx

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"
)

// Inspector talks raw memcached protocol on a connection of its own; it
// shares no code with the client under test.
type Inspector struct {
	c net.Conn
	r *bufio.Reader
}

// State is what memcached holds under a key.
type State struct {
	Exists bool
	Value  []byte
	Flags  uint32
	TTL    int64
	Cas    uint64
	Stale  bool
	At     time.Time // when it was read
}

func (s State) String() string {
	if !s.Exists {
		return "(absent)"
	}
	return fmt.Sprintf("{%s flags=%d ttl=%d cas=%d stale=%v}", Q(s.Value), s.Flags, s.TTL, s.Cas, s.Stale)
}

// Q quotes bytes, abbreviated.
func Q(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", b[:60], len(b))
	}
	return strconv.Quote(string(b))
}

// NewInspector connects or ends the check as an infrastructure failure.
func NewInspector(network, addr string) *Inspector {
	c, err := net.Dial(network, addr)
	if err != nil {
		Infra("inspector: %v", err)
	}
	return &Inspector{c: c, r: bufio.NewReaderSize(c, 1<<16)}
}

func (i *Inspector) Close() { i.c.Close() }

func (i *Inspector) send(s string) {
	i.c.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := io.WriteString(i.c, s); err != nil {
		Infra("inspector write: %v", err)
	}
}

func (i *Inspector) line() string {
	l, err := i.r.ReadString('\n')
	if err != nil {
		Infra("inspector read: %v", err)
	}
	return strings.TrimRight(l, "\r\n")
}

// Raw sends one line command and returns the one line answer.
func (i *Inspector) Raw(cmd string) string {
	i.send(cmd + "\r\n")
	return i.line()
}

// FlushAll empties the server.
func (i *Inspector) FlushAll() {
	if l := i.Raw("flush_all"); l != "OK" {
		Infra("flush_all: %q", l)
	}
}

// Set stores directly.
func (i *Inspector) Set(key string, value []byte, flags uint32, ttl int64) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "ms %s %d T%d F%d\r\n", key, len(value), ttl, flags)
	b.Write(value)
	b.WriteString("\r\n")
	i.send(b.String())
	if l := i.line(); l != "HD" {
		Infra("inspector set %q: %q", key, l)
	}
}

// Delete removes directly.
func (i *Inspector) Delete(key string) {
	l := i.Raw("md " + key)
	if l != "HD" && l != "NF" {
		Infra("inspector delete %q: %q", key, l)
	}
}

// MaxAnyKey is the longest key of arbitrary bytes that GetAny can ask for.
const MaxAnyKey = 186

// GetAny is Get for keys of arbitrary bytes.
func (i *Inspector) GetAny(key string) State {
	if LegalKey(key) {
		return i.Get(key)
	}
	return i.get(base64.StdEncoding.EncodeToString([]byte(key)) + " b")
}

// Get reads the true state of a key.
func (i *Inspector) Get(key string) State { return i.get(key) }

func (i *Inspector) get(key string) State {
	start := time.Now()
	defer noteTook(start)
	i.send("mg " + key + " v f c t\r\n")
	l := i.line()
	if l == "EN" {
		return State{At: start}
	}
	f := strings.Split(l, " ")
	if f[0] != "VA" || len(f) < 3 {
		Infra("inspector get %q: %q", key, l)
	}
	n, err := strconv.Atoi(f[1])
	if err != nil {
		Infra("inspector get %q: %q", key, l)
	}
	s := State{Exists: true, At: start}
	for _, tok := range f[2:] {
		if tok == "" {
			continue
		}
		switch tok[0] {
		case 'f':
			v, _ := strconv.ParseUint(tok[1:], 10, 32)
			s.Flags = uint32(v)
		case 'c':
			s.Cas, _ = strconv.ParseUint(tok[1:], 10, 64)
		case 't':
			s.TTL, _ = strconv.ParseInt(tok[1:], 10, 64)
		case 'X', 'W', 'Z':
			s.Stale = true
		}
	}
	buf := make([]byte, n+2)
	if _, err := io.ReadFull(i.r, buf); err != nil {
		Infra("inspector read: %v", err)
	}
	s.Value = buf[:n]
	return s
}
