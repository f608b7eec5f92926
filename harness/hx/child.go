package hx

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"go.f110.dev/go-memcached/server"
)

// CanaryKey is the prefix of the keys that a child answers but does not list.
const CanaryKey = "canary-"

// childAS is the address space of a child: lengths that clients lie about do
// not fit in several times.
const childAS = 4 << 30

// ChildMain runs the server when this process is a child.
func ChildMain() {
	switch os.Getenv("HX_CHILD") {
	case "":
		return
	case "server":
		childServer()
	}
	os.Exit(0)
}

type childHandler struct {
	mu  sync.Mutex
	got []*server.Request
	// Nothing is to be reported, and nothing of it stays in the memory.
	forget bool
}

func (h *childHandler) ServeRequest(r *server.Request) ([]*server.Response, error) {
	if r.Opcode == server.OpcodeGet && strings.HasPrefix(r.Key, CanaryKey) {
		return []*server.Response{{Key: r.Key, Value: []byte("value of " + r.Key), Flags: []byte{0, 0, 0, 5}}}, nil
	}
	if !h.forget {
		c := CloneReq(r)
		h.mu.Lock()
		h.got = append(h.got, c)
		h.mu.Unlock()
	}
	switch r.Opcode {
	case server.OpcodeGet:
		if r.Keys != nil {
			return []*server.Response{}, nil
		}
		return []*server.Response{{Key: r.Key, Value: []byte("v")}}, nil
	case server.OpcodeIncrement, server.OpcodeDecrement:
		return []*server.Response{{Value: []byte("12345678")}}, nil
	case server.OpcodeVersion:
		return []*server.Response{{Value: []byte("VERSION 1")}}, nil
	}
	return []*server.Response{{}}, nil
}

type childReport struct {
	Accepted int64
	Open     int64 // connections that the server has not closed
	Got      []*server.Request
	// Of the whole process; the heap on request only.
	Goroutines int
	Heap       int64
}

type countingListener struct {
	net.Listener
	open     atomic.Int64
	accepted atomic.Int64
}

func (l *countingListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	l.open.Add(1)
	l.accepted.Add(1)
	return &countedConn{Conn: c, l: l}, nil
}

type countedConn struct {
	net.Conn
	l    *countingListener
	once sync.Once
}

func (c *countedConn) Close() error {
	c.once.Do(func() { c.l.open.Add(-1) })
	return c.Conn.Close()
}

func childServer() {
	lim := syscall.Rlimit{Cur: childAS, Max: childAS}
	if err := syscall.Setrlimit(syscall.RLIMIT_AS, &lim); err != nil {
		fmt.Fprintf(os.Stderr, "CHILD-INFRA setrlimit: %v\n", err)
		os.Exit(ExitInfra)
	}
	if n, err := strconv.ParseUint(os.Getenv("HX_CHILD_NOFILE"), 10, 31); err == nil {
		lim := syscall.Rlimit{Cur: n, Max: n}
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			fmt.Fprintf(os.Stderr, "CHILD-INFRA setrlimit: %v\n", err)
			os.Exit(ExitInfra)
		}
	}
	h := &childHandler{forget: os.Getenv("HX_CHILD_FORGET") != ""}
	l, err := net.Listen("unix", os.Getenv("HX_CHILD_ADDR"))
	if err != nil {
		fmt.Fprintf(os.Stderr, "CHILD-INFRA listen: %v\n", err)
		os.Exit(ExitInfra)
	}
	cl := &countingListener{Listener: l}
	go func() {
		err := (&server.Server{Handler: h}).Serve(cl)
		fmt.Fprintf(os.Stderr, "SERVE-RETURNED %v\n", err)
		os.Exit(3)
	}()
	fmt.Println("ready")
	in := bufio.NewReader(os.Stdin)
	enc := gob.NewEncoder(os.Stdout)
	for {
		cmd, err := in.ReadString('\n')
		if err != nil {
			os.Exit(0)
		}
		accepted, open := cl.accepted.Load(), cl.open.Load()
		h.mu.Lock()
		got := h.got
		h.got = nil
		h.mu.Unlock()
		r := childReport{Accepted: accepted, Open: open, Got: got, Goroutines: runtime.NumGoroutine()}
		if cmd == "left\n" {
			// Twice, for what pools keep until then.
			var m runtime.MemStats
			runtime.GC()
			runtime.GC()
			runtime.ReadMemStats(&m)
			r.Heap = int64(m.HeapAlloc)
		}
		enc.Encode(r)
	}
}

// Child is a server process of its own.
type Child struct {
	Addr   string
	cmd    *exec.Cmd
	in     *os.File
	out    *bufio.Reader
	dec    *gob.Decoder
	errs   *lockedBuffer
	exited chan struct{}
	canary net.Conn
	cr     *bufio.Reader
	n      int
	dialed int64
}

// Dial connects to the server.
func (c *Child) Dial() (net.Conn, error) {
	var conn net.Conn
	var err error
	WaitFor(CallLimit(), func() bool {
		conn, err = net.Dial("unix", c.Addr)
		return !errors.Is(err, syscall.EAGAIN) // the queue is full
	})
	if err == nil {
		c.dialed++
	}
	return conn, err
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuffer) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// NewChild starts a server process.
func NewChild() *Child { return NewChildWith() }

// NewChildWith starts a server process with a changed environment.
func NewChildWith(env ...string) *Child {
	exe, err := os.Executable()
	if err != nil {
		Infra("executable: %v", err)
	}
	c := &Child{Addr: NextPath("c"), errs: &lockedBuffer{}, exited: make(chan struct{})}
	os.Remove(c.Addr)
	c.cmd = exec.Command(exe)
	c.cmd.Env = append(os.Environ(), "HX_CHILD=server", "HX_CHILD_ADDR="+c.Addr, "GOTRACEBACK=single", "GOMAXPROCS=4")
	c.cmd.Env = append(c.cmd.Env, env...)
	c.cmd.Stderr = c.errs
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	ir, iw, err := os.Pipe()
	if err != nil {
		Infra("pipe: %v", err)
	}
	or, ow, err := os.Pipe()
	if err != nil {
		Infra("pipe: %v", err)
	}
	c.cmd.Stdin, c.cmd.Stdout, c.in, c.out = ir, ow, iw, bufio.NewReader(or)
	if err := c.cmd.Start(); err != nil {
		Infra("child: %v", err)
	}
	ir.Close()
	ow.Close()
	go func() { c.cmd.Wait(); close(c.exited) }()
	if l, err := c.out.ReadString('\n'); err != nil || l != "ready\n" {
		Infra("child does not start: %q %v %s", l, err, c.errs)
	}
	c.dec = gob.NewDecoder(c.out)
	return c
}

// Dead says how the process ended, "" while it runs.
func (c *Child) Dead() string {
	select {
	case <-c.exited:
	default:
		return ""
	}
	st := c.cmd.ProcessState
	if ws, ok := st.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		Infra("the child was killed")
	}
	msg := c.errs.String()
	if strings.Contains(msg, "CHILD-INFRA") {
		Infra("%s", msg)
	}
	if len(msg) > 1500 {
		msg = msg[:1500]
	}
	return fmt.Sprintf("the server process ended (%v): %s", st, msg)
}

// DeadSoon waits a moment for the process to end, after a sign of it.
func (c *Child) DeadSoon() string {
	select {
	case <-c.exited:
	case <-time.After(2 * time.Second):
	}
	return c.Dead()
}

// Take waits until the server has closed the connections whose clients left
// and lists the requests the handler got since the last call.
func (c *Child) Take() (all []*server.Request, msg string) {
	want := int64(0)
	if c.canary != nil {
		want = 1
	}
	open := int64(0)
	ok := WaitFor(CallLimit(), func() bool {
		if _, err := c.in.WriteString("dump\n"); err != nil {
			msg = c.DeadSoon()
			return true
		}
		var r childReport
		if err := c.dec.Decode(&r); err != nil {
			if msg = c.DeadSoon(); msg == "" {
				Infra("child: %v", err)
			}
			return true
		}
		all = append(all, r.Got...)
		open = r.Open
		return r.Accepted >= c.dialed && open <= want
	})
	if !ok {
		msg = fmt.Sprintf("%d connections whose clients left are neither served nor closed", open-want)
		hung.Store(true)
	}
	return all, msg
}

// Left tells how many goroutines and how many bytes the process has.
func (c *Child) Left() (goroutines int, heap int64, msg string) {
	var r childReport
	if _, err := c.in.WriteString("left\n"); err == nil {
		err = c.dec.Decode(&r)
		if err == nil {
			return r.Goroutines, r.Heap, ""
		}
	}
	if msg = c.DeadSoon(); msg == "" {
		Infra("child: no report")
	}
	return 0, 0, msg
}

// Canary makes a request on a well-behaved connection and checks the answer.
func (c *Child) Canary() string {
	fail := func(what string, err error) string {
		if d := c.DeadSoon(); d != "" {
			return d
		}
		return fmt.Sprintf("a well-behaved connection is not served: %s: %v", what, err)
	}
	if c.canary == nil {
		conn, err := c.Dial()
		if err != nil {
			return fail("dial", err)
		}
		c.canary, c.cr = conn, bufio.NewReader(conn)
	}
	c.n++
	key := fmt.Sprintf("%s%d", CanaryKey, c.n)
	c.canary.SetDeadline(time.Now().Add(CallLimit()))
	if _, err := fmt.Fprintf(c.canary, "get %s\r\n", key); err != nil {
		return fail("write", err)
	}
	want := fmt.Sprintf("VALUE %s 5 %d\r\nvalue of %s\r\nEND\r\n", key, len("value of "+key), key)
	got := make([]byte, 0, len(want))
	for len(got) < len(want) {
		b, err := c.cr.ReadByte()
		if err != nil {
			return fail(fmt.Sprintf("read %q", got), err)
		}
		got = append(got, b)
		if b != want[len(got)-1] {
			return fmt.Sprintf("a well-behaved connection got %q, want %q", got, want)
		}
	}
	return ""
}

// Close ends the process.
func (c *Child) Close() {
	c.in.Close()
	if c.canary != nil {
		c.canary.Close()
	}
	c.cmd.Process.Kill()
	<-c.exited
	os.Remove(c.Addr)
}
