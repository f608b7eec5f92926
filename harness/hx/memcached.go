package hx

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"time"
)

var (
	scratchOnce sync.Once
	scratchDir  string
	procMu      sync.Mutex
	procs       = map[*Memcached]struct{}{}
	spawnCh     = make(chan func())
	spawnOnce   sync.Once
	seq         int
)

// Scratch is this process's private directory (short, for unix sockets).
func Scratch() string {
	scratchOnce.Do(func() {
		d, err := os.MkdirTemp("", "hx")
		if err != nil {
			Infra("scratch: %v", err)
		}
		scratchDir = d
	})
	return scratchDir
}

// NextPath returns a fresh path for a unix socket.
func NextPath(kind string) string {
	procMu.Lock()
	defer procMu.Unlock()
	seq++
	return filepath.Join(Scratch(), kind+strconv.Itoa(seq))
}

// onSpawner runs fn on one OS thread that lives as long as the process, so
// that Pdeathsig ends the children with us and not with some thread.
func onSpawner(fn func()) {
	spawnOnce.Do(func() {
		go func() {
			runtime.LockOSThread()
			for f := range spawnCh {
				f()
			}
		}()
	})
	done := make(chan struct{})
	spawnCh <- func() { defer close(done); fn() }
	<-done
}

// StartChild starts cmd so that it dies with this process.
func StartChild(cmd *exec.Cmd) error {
	if cmd.SysProcAttr == nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{}
	}
	cmd.SysProcAttr.Pdeathsig = syscall.SIGKILL
	var err error
	onSpawner(func() { err = cmd.Start() })
	return err
}

// Memcached is a real memcached process.
type Memcached struct {
	Network, Addr string
	Port          int
	host          string
	args          []string
	cmd           *exec.Cmd
	insp          *Inspector
}

// NewMemcached starts memcached on a unix socket of its own.
func NewMemcached() *Memcached {
	m := &Memcached{Network: "unix", Addr: NextPath("m")}
	m.Start()
	return m
}

// NewMemcachedLarge starts memcached that takes items of up to 64 MiB.
func NewMemcachedLarge() *Memcached {
	m := &Memcached{Network: "unix", Addr: NextPath("m"), args: []string{"-I", "64m", "-m", "2048"}}
	m.Start()
	return m
}

// NewMemcachedTCP starts memcached on a free loopback port.
func NewMemcachedTCP() *Memcached {
	for i := 0; i < 20; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			Infra("listen: %v", err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		m := &Memcached{Network: "tcp", Addr: fmt.Sprintf("127.0.0.1:%d", port), Port: port}
		if m.start() {
			return m
		}
	}
	Infra("no port for memcached")
	return nil
}

// NewMemcachedAt starts memcached on a host and port, or returns nil.
func NewMemcachedAt(host string, port int) *Memcached {
	m := &Memcached{Network: "tcp", Addr: net.JoinHostPort(host, strconv.Itoa(port)), Port: port, host: host}
	if !m.start() {
		return nil
	}
	return m
}

// Start launches the process (again, after Stop).
func (m *Memcached) Start() {
	for i := 0; i < 5; i++ {
		if m.start() {
			return
		}
	}
	Infra("memcached does not start on %s", m.Addr)
}

func (m *Memcached) start() bool {
	bin, err := exec.LookPath("memcached")
	if err != nil {
		Infra("memcached: %v", err)
	}
	args := append([]string{"-m", "1024", "-t", "2", "-c", "2000"}, m.args...)
	if m.Network == "unix" {
		os.Remove(m.Addr)
		args = append(args, "-s", m.Addr, "-a", "0777")
	} else {
		host := m.host
		if host == "" {
			host = "127.0.0.1"
		}
		args = append(args, "-l", host, "-p", strconv.Itoa(m.Port), "-U", "0")
	}
	if os.Getuid() == 0 {
		args = append(args, "-u", "root")
	}
	cmd := exec.Command(bin, args...)
	if err := StartChild(cmd); err != nil {
		Infra("start memcached: %v", err)
	}
	m.cmd = cmd
	exited := make(chan struct{})
	go func() { cmd.Wait(); close(exited) }()
	procMu.Lock()
	procs[m] = struct{}{}
	procMu.Unlock()
	ok := WaitFor(30*time.Second, func() bool {
		c, err := net.Dial(m.Network, m.Addr)
		if err == nil {
			c.Close()
			return true
		}
		select {
		case <-exited:
			return true
		default:
			return false
		}
	})
	select {
	case <-exited:
		return false
	default:
	}
	return ok
}

// Stop kills the process and waits until its socket refuses connections.
func (m *Memcached) Stop() {
	if m.cmd == nil {
		return
	}
	if m.insp != nil {
		m.insp.Close()
		m.insp = nil
	}
	m.cmd.Process.Kill()
	if !WaitFor(30*time.Second, func() bool {
		c, err := net.Dial(m.Network, m.Addr)
		if err == nil {
			c.Close()
			return false
		}
		return true
	}) {
		Infra("memcached does not stop")
	}
	m.cmd = nil
	procMu.Lock()
	delete(procs, m)
	procMu.Unlock()
}

// Inspect returns the raw side connection.
func (m *Memcached) Inspect() *Inspector {
	if m.insp == nil {
		m.insp = NewInspector(m.Network, m.Addr)
	}
	return m.insp
}

// KillAll ends every child and removes the scratch directory.
func KillAll() {
	procMu.Lock()
	defer procMu.Unlock()
	for m := range procs {
		if m.cmd != nil && m.cmd.Process != nil {
			m.cmd.Process.Kill()
		}
	}
	if scratchDir != "" {
		os.RemoveAll(scratchDir)
	}
}
