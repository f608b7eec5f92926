package hx

import (
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"go.f110.dev/go-memcached/client"
)

// FaultKind is what the relay does when a trigger offset is reached.
type FaultKind int

const (
	FaultNone  FaultKind = iota
	FaultCut             // close both sides
	FaultStall           // hold everything that follows until Release
)

// Fault fires after N bytes of the given direction, counted since Arm.
type Fault struct {
	Kind    FaultKind
	Request bool // direction: client to server instead of server to client
	After   int
}

// maxChunks bounds how many small segments one burst of reply bytes is cut
// into; the rest travels unchanged.
const maxChunks = 48

// Relay forwards unix connections to a memcached and controls how the bytes
// travel: reply segmentation, cuts and stalls at byte offsets.
type Relay struct {
	Addr    string
	network string
	target  string
	l       net.Listener

	mu       sync.Mutex
	cond     *sync.Cond
	pattern  []int
	pi       int
	fault    Fault
	left     int
	fired    bool
	stalled  bool
	refuse   bool
	conns    map[*relayConn]struct{}
	accepted int
	downCnt  int // reply bytes seen since Arm
	upCnt    int // request bytes seen since Arm
}

type relayConn struct {
	c, s net.Conn
	once sync.Once
}

func (r *relayConn) close() {
	r.once.Do(func() { r.c.Close(); r.s.Close() })
}

// NewRelay starts a relay in front of network/addr.
func NewRelay(network, addr string) *Relay {
	r := &Relay{Addr: NextPath("r"), network: network, target: addr, conns: map[*relayConn]struct{}{}}
	r.cond = sync.NewCond(&r.mu)
	r.Listen()
	return r
}

// Listen (re)opens the listening socket.
func (r *Relay) Listen() {
	os.Remove(r.Addr)
	l, err := net.Listen("unix", r.Addr)
	if err != nil {
		Infra("relay: %v", err)
	}
	r.mu.Lock()
	r.l = l
	r.mu.Unlock()
	go r.serve(l)
}

// Up opens the listening socket unless it is open.
func (r *Relay) Up() {
	r.mu.Lock()
	up := r.l != nil
	r.mu.Unlock()
	if !up {
		r.Listen()
	}
}

// Down closes the listener and every connection: the server is unreachable.
func (r *Relay) Down() {
	r.mu.Lock()
	l := r.l
	r.l = nil
	r.mu.Unlock()
	if l != nil {
		l.Close()
	}
	r.CutAll()
}

// CutAll closes every open connection.
func (r *Relay) CutAll() {
	r.mu.Lock()
	var cs []*relayConn
	for c := range r.conns {
		cs = append(cs, c)
	}
	r.mu.Unlock()
	for _, c := range cs {
		c.close()
	}
	r.Release()
}

// Close ends the relay.
func (r *Relay) Close() { r.Down(); os.Remove(r.Addr) }

// Conns returns the number of open and of ever accepted connections.
func (r *Relay) Conns() (open, accepted int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.conns), r.accepted
}

// Dial makes a client through the relay and waits until the relay knows the
// connection, so that a cut cannot miss it.
func (r *Relay) Dial(proto, name string, opts ...client.ServerOpt) client.Server {
	_, before := r.Conns()
	c := MustDial(proto, name, "unix", r.Addr, opts...)
	r.WaitAccepted(before + 1)
	return c
}

// WaitAccepted waits until n connections were accepted.
func (r *Relay) WaitAccepted(n int) {
	if !WaitFor(20*time.Second, func() bool { _, a := r.Conns(); return a >= n }) {
		Infra("relay: connection not accepted")
	}
}

var flushes atomic.Int64

// Flush waits until the connections made so far are known: on a loaded
// machine they may sit in the socket's queue after the client has closed
// them.
func (r *Relay) Flush() {
	local := &net.UnixAddr{Name: fmt.Sprintf("@verif-flush-%d-%d", os.Getpid(), flushes.Add(1)), Net: "unix"}
	c, err := net.DialUnix("unix", local, &net.UnixAddr{Name: r.Addr, Net: "unix"})
	if err != nil {
		return // down: nothing can be queued
	}
	defer c.Close()
	c.SetReadDeadline(time.Now().Add(30 * time.Second))
	if _, err := c.Read(make([]byte, 1)); errors.Is(err, os.ErrDeadlineExceeded) {
		Infra("relay: connections are not accepted")
	}
}

// Segments sets the reply chunk sizes, used cyclically; none means unchanged.
func (r *Relay) Segments(sizes []int) {
	r.mu.Lock()
	r.pattern, r.pi = sizes, 0
	r.mu.Unlock()
}

// Arm sets the fault for the bytes that follow and restarts the counters.
func (r *Relay) Arm(f Fault) {
	r.mu.Lock()
	r.fault, r.left, r.fired, r.stalled = f, f.After, false, false
	r.downCnt, r.upCnt = 0, 0
	r.mu.Unlock()
	r.cond.Broadcast()
}

// Fired reports whether the armed fault happened.
func (r *Relay) Fired() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.fired }

// Counts returns request and reply bytes since Arm.
func (r *Relay) Counts() (up, down int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.upCnt, r.downCnt
}

// Release lets stalled bytes go.
func (r *Relay) Release() {
	r.mu.Lock()
	r.stalled = false
	r.fault = Fault{}
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (r *Relay) serve(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		if strings.HasPrefix(c.RemoteAddr().String(), "@verif-flush-") {
			c.Close()
			continue
		}
		s, err := net.Dial(r.network, r.target)
		if err != nil {
			c.Close()
			continue
		}
		rc := &relayConn{c: c, s: s}
		r.mu.Lock()
		if r.l != l {
			r.mu.Unlock()
			rc.close()
			return
		}
		r.accepted++
		r.conns[rc] = struct{}{}
		r.mu.Unlock()
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); r.pump(rc, true) }()
		go func() { defer wg.Done(); r.pump(rc, false) }()
		go func() {
			wg.Wait()
			rc.close()
			r.mu.Lock()
			delete(r.conns, rc)
			r.mu.Unlock()
		}()
	}
}

func (r *Relay) pump(rc *relayConn, up bool) {
	defer rc.close()
	src, dst := rc.s, rc.c
	if up {
		src, dst = rc.c, rc.s
	}
	buf := make([]byte, 1<<16)
	chunks := 0
	for {
		n, err := src.Read(buf)
		p := buf[:n]
		for len(p) > 0 {
			r.mu.Lock()
			for r.stalled {
				r.cond.Wait()
			}
			k := len(p)
			if !up && len(r.pattern) > 0 && chunks < maxChunks {
				s := r.pattern[r.pi%len(r.pattern)]
				r.pi++
				if s < k {
					k = s
				}
				chunks++
			}
			act := FaultNone
			if !r.fired && r.fault.Kind != FaultNone && r.fault.Request == up {
				if k >= r.left {
					k = r.left
					act = r.fault.Kind
					r.fired = true
					if act == FaultStall {
						r.stalled = true
					}
				}
				r.left -= k
			}
			seg := !up && len(r.pattern) > 0
			if up {
				r.upCnt += k
			} else {
				r.downCnt += k
			}
			r.mu.Unlock()
			if k > 0 {
				if _, werr := dst.Write(p[:k]); werr != nil {
					return
				}
				if seg {
					WaitDrained(dst)
				}
			}
			p = p[k:]
			if act == FaultCut {
				if k > 0 {
					WaitDrained(dst)
				}
				return
			}
		}
		if err != nil {
			return
		}
		if !up {
			chunks = chunks / 2
		}
	}
}

// WaitDrained waits (briefly) until the peer has read everything written to
// the unix socket, so that the next write is a segment of its own.
func WaitDrained(c net.Conn) {
	uc, ok := c.(*net.UnixConn)
	if !ok {
		return
	}
	rawc, err := uc.SyscallConn()
	if err != nil {
		return
	}
	deadline := time.Now().Add(2 * time.Millisecond)
	for i := 0; ; i++ {
		q := int32(0)
		if rawc.Control(func(fd uintptr) {
			syscall.Syscall(syscall.SYS_IOCTL, fd, 0x5411, uintptr(unsafe.Pointer(&q)))
		}) != nil || q == 0 {
			return
		}
		if time.Now().After(deadline) {
			return
		}
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(5 * time.Microsecond)
		}
	}
}
