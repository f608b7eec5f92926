package hx

import (
	"fmt"
	"net"
	"sync"
	"syscall"
	"time"
)

// Deaf is a host that can be made to ignore new connections as well: its queue
// of connections is small, and full of others.
type Deaf struct {
	Addr  string
	fd    int
	mu    sync.Mutex
	conns []net.Conn // that fill the queue
	held  []int      // accepted, and ignored
}

// NewDeaf listens on a port of the loopback interface.
func NewDeaf() *Deaf {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		Infra("socket: %v", err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		Infra("bind: %v", err)
	}
	if err := syscall.Listen(fd, 1); err != nil {
		Infra("listen: %v", err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		Infra("getsockname: %v", err)
	}
	return &Deaf{fd: fd, Addr: fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)}
}

// Hold accepts a connection and ignores it.
func (d *Deaf) Hold() {
	fd, _, err := syscall.Accept(d.fd)
	if err != nil {
		Infra("accept: %v", err)
	}
	d.held = append(d.held, fd)
}

// Stop makes the host ignore new connections. It reports whether it does.
func (d *Deaf) Stop() bool {
	for i := 0; i < 20; i++ {
		c, err := net.DialTimeout("tcp", d.Addr, 300*time.Millisecond)
		if err != nil {
			e, ok := err.(net.Error)
			return ok && e.Timeout()
		}
		d.conns = append(d.conns, c)
	}
	return false
}

// Close releases everything.
func (d *Deaf) Close() {
	for _, c := range d.conns {
		c.Close()
	}
	for _, fd := range d.held {
		syscall.Close(fd)
	}
	syscall.Close(d.fd)
}
