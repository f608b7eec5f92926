package checks

import (
	"sync"
	"testing"
	"time"

	"go.f110.dev/go-memcached/client"
	"verif/harness/hx"
)

func TestMain(m *testing.M) {
	hx.ChildMain()
	hx.Main(m)
}

var (
	mcMu  sync.Mutex
	mcAll []*hx.Memcached
)

// mc returns the i-th shared memcached of this process.
func mc(i int) *hx.Memcached {
	mcMu.Lock()
	defer mcMu.Unlock()
	for len(mcAll) <= i {
		mcAll = append(mcAll, hx.NewMemcached())
	}
	return mcAll[i]
}

// closeQuiet closes clients in whatever state a case left them: closing may
// panic, or never return when a lock was left locked by a panic.
func closeQuiet(s ...client.Server) {
	for _, c := range s {
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() { recover() }()
			c.Close()
		}()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
		}
	}
}

// rig is one memcached behind a relay, with one client per protocol.
type rig struct {
	mc    *hx.Memcached
	relay *hx.Relay
	c     map[string]client.Server
}

var sharedRelay *hx.Relay

// newRig makes fresh clients through the process's relay on a flushed server.
func newRig(segments []int, protos ...string) *rig {
	m := mc(0)
	if sharedRelay == nil {
		sharedRelay = hx.NewRelay(m.Network, m.Addr)
	}
	sharedRelay.Arm(hx.Fault{})
	sharedRelay.Segments(segments)
	m.Inspect().FlushAll()
	r := &rig{mc: m, relay: sharedRelay, c: map[string]client.Server{}}
	for _, p := range protos {
		r.c[p] = r.relay.Dial(p, "srv")
	}
	return r
}

func (r *rig) close() {
	for _, c := range r.c {
		closeQuiet(c)
	}
	r.relay.CutAll()
}
