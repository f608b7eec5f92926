package checks

import (
	"bufio"
	"fmt"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.f110.dev/go-memcached/client"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

func heartbeatOpt(interval time.Duration, reconnect bool) client.ServerOpt {
	return func(o *client.ServerOption) { o.HeartbeatInterval, o.EnableAutoReconnect = interval, reconnect }
}

// hbServer answers requests and can fall silent. It counts what it sees.
type hbServer struct {
	*hx.FakeServer
	accepted, open, requests, versions atomic.Int64
	silent                             atomic.Bool
	mu                                 sync.Mutex
	conns                              []net.Conn
}

// halfClose ends the server's side of every connection; the client's side is
// the client's to close.
func (s *hbServer) halfClose() {
	s.mu.Lock()
	for _, c := range s.conns {
		c.(*net.UnixConn).CloseWrite()
	}
	s.mu.Unlock()
}

func newHBServer() *hbServer {
	s := &hbServer{}
	s.FakeServer = hx.NewFakeServer(func(c net.Conn) {
		s.mu.Lock()
		s.conns = append(s.conns, c)
		s.mu.Unlock()
		s.open.Add(1)
		s.accepted.Add(1)
		defer s.open.Add(-1)
		r := bufio.NewReader(c)
		for {
			q, err := hx.ReadReq(r)
			if err != nil {
				return
			}
			s.requests.Add(1)
			if q.Cmd == "version" || q.Binary && q.Opcode == 0x0b {
				s.versions.Add(1)
			}
			if s.silent.Load() {
				continue
			}
			c.Write(okReply(q))
		}
	})
	return s
}

// longWait is how long something that happens by itself may take on a loaded
// machine; it takes some tens of milliseconds.
const longWait = 20 * time.Second

var hbInterval = rapid.SampledFrom([]int{8, 15, 25})

// C15: with auto-reconnect a client survives every outage by itself.
func TestC15_AutoReconnect(t *testing.T) {
	hx.Check(t, 40, 1200, func(t *rapid.T) {
		proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		interval := time.Duration(hbInterval.Draw(t, "interval_ms")) * time.Millisecond
		r := newRig(nil)
		defer r.close()
		defer r.relay.Up()
		c := r.relay.Dial(proto, "srv", heartbeatOpt(interval, true))
		defer closeQuiet(c)
		kinds := []string{"down", "cut", "cut", "down"}
		if !hx.RaceBuild {
			// Setting the timeout races with the running heartbeat.
			hx.SetTimeout(c, 40*time.Millisecond)
			kinds = append(kinds, "silent", "silent")
		}
		desc := []string{proto, interval.String()}
		key := hx.Key().Draw(t, "key")
		usable := func(when string) {
			deadline := time.Now().Add(longWait)
			for i := 0; ; i++ {
				want := []byte(fmt.Sprintf("%s %d", when, i))
				r.mc.Inspect().Set(key, want, 4, 0)
				res := hx.Run(t, c, hx.Op{Kind: "get", Key: key})
				if res.Err == nil {
					if string(res.Item.Value) != string(want) {
						t.Fatalf("%v: %s: get returned %v, want %q", desc, when, res, want)
					}
					return
				}
				if res.Kind != hx.Other {
					t.Fatalf("%v: %s: get returned %v", desc, when, res)
				}
				if time.Now().After(deadline) {
					t.Fatalf("%v: %s: the client did not become usable within %v: %v", desc, when, longWait, res)
				}
				time.Sleep(time.Millisecond)
			}
		}
		usable("at first")
		n := rapid.IntRange(1, 4).Draw(t, "outages")
		for i := 0; i < n; i++ {
			kind := rapid.SampledFrom(kinds).Draw(t, "kind")
			for_ := time.Duration(rapid.SampledFrom([]int{0, 5, 30, 60, 120}).Draw(t, "for_ms")) * time.Millisecond
			calls := rapid.IntRange(0, 3).Draw(t, "calls")
			desc = append(desc, fmt.Sprintf("%s for %v with %d calls", kind, for_, calls))
			r.relay.WaitAccepted(1)
			switch kind {
			case "down":
				r.relay.Down()
			case "cut":
				r.relay.CutAll()
			case "silent":
				r.relay.Arm(hx.Fault{Kind: hx.FaultStall, After: rapid.IntRange(0, 9).Draw(t, "after")})
			}
			for ; calls > 0; calls-- {
				res := hx.Run(t, c, hx.Op{Kind: rapid.SampledFrom([]string{"get", "set", "incr", "version"}).Draw(t, "op"), Key: key + "x", Delta: 1})
				if kind == "down" && res.Err == nil {
					t.Fatalf("%v: call succeeded while the server was down: %v", desc, res)
				}
			}
			time.Sleep(for_)
			if rapid.IntRange(0, 9).Draw(t, "restart") == 9 && kind == "down" {
				r.mc.Stop()
				r.mc.Start()
			}
			r.relay.Release()
			r.relay.Up()
			usable(fmt.Sprintf("after outage %d", i+1))
		}
		// one connection in the end
		if !hx.WaitFor(longWait, func() bool { open, _ := r.relay.Conns(); return open == 1 }) {
			open, _ := r.relay.Conns()
			t.Fatalf("%v: %d connections are open in the end", desc, open)
		}
		hx.Case(strings.Join(desc, " "), true, "auto-reconnect:"+proto, fmt.Sprintf("outages: %d", n))
	})
}

// C15: heartbeat alone probes a healthy connection, closes a dead one.
func TestC15_Heartbeat(t *testing.T) {
	hx.Check(t, 40, 1200, func(t *rapid.T) {
		proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		interval := time.Duration(hbInterval.Draw(t, "interval_ms")) * time.Millisecond
		fs := newHBServer()
		defer fs.Close()
		c := hx.MustDial(proto, "srv", "unix", fs.Addr, heartbeatOpt(interval, false))
		defer closeQuiet(c)
		death := "ended by the server"
		if !hx.RaceBuild && rapid.Bool().Draw(t, "silent") {
			hx.SetTimeout(c, 40*time.Millisecond)
			death = "silent"
		}
		hx.WaitFor(longWait, func() bool { return fs.accepted.Load() == 1 })
		probes := int64(rapid.IntRange(1, 4).Draw(t, "probes"))
		desc := fmt.Sprintf("%s heartbeat %v probes %d then %s", proto, interval, probes, death)
		if death != "silent" {
			// Without a timeout a loaded machine can't make a call fail.
			for i := 0; i < 3; i++ {
				if res := hx.Run(t, c, hx.Op{Kind: "get", Key: "k"}); res.Err != nil || string(res.Item.Value) != "value-of-k" {
					t.Fatalf("%s: get on the healthy connection: %v", desc, res)
				}
			}
			if !hx.WaitFor(longWait, func() bool { return fs.versions.Load() >= probes }) {
				t.Fatalf("%s: %d probes within %v", desc, fs.versions.Load(), longWait)
			}
			for i := 0; i < 3; i++ {
				if res := hx.Run(t, c, hx.Op{Kind: "get", Key: "k"}); res.Err != nil || string(res.Item.Value) != "value-of-k" {
					t.Fatalf("%s: get on the healthy connection: %v", desc, res)
				}
			}
			if fs.accepted.Load() != 1 || fs.open.Load() != 1 {
				t.Fatalf("%s: the healthy connection was not left intact: %d connections made, %d open", desc, fs.accepted.Load(), fs.open.Load())
			}
		}
		if death == "silent" {
			fs.silent.Store(true)
		} else {
			fs.halfClose()
		}
		// The heartbeat notices: the connection is closed by the client, and
		// operations return errors.
		if !hx.WaitFor(longWait, func() bool { return fs.open.Load() == 0 }) {
			t.Fatalf("%s: the dead connection was not closed within %v", desc, longWait)
		}
		for i := 0; i < 2; i++ {
			if res := hx.Run(t, c, hx.Op{Kind: rapid.SampledFrom([]string{"get", "set", "version"}).Draw(t, "op"), Key: "k"}); res.Kind != hx.Other {
				t.Fatalf("%s: call on the dead connection: %v", desc, res)
			}
		}
		fs.silent.Store(false)
		time.Sleep(4 * interval)
		if a := fs.accepted.Load(); a != 1 {
			t.Fatalf("%s: %d connections were made without auto-reconnect", desc, a)
		}
		hx.Case(desc, true, "heartbeat:"+proto)
	})
}

// clientGoroutine returns the stack of a goroutine that a client started, if
// there is one.
func clientGoroutine() string {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "created by go.f110.dev/go-memcached/client") {
			return g
		}
	}
	return ""
}

// C15: Close ends everything, whenever it comes.
func TestC15_Close(t *testing.T) {
	hx.Check(t, 60, 1800, func(t *rapid.T) {
		proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		interval := time.Duration(rapid.SampledFrom([]int{0, 1, 5, 15}).Draw(t, "interval_ms")) * time.Millisecond
		auto := rapid.Bool().Draw(t, "auto")
		state := rapid.SampledFrom([]string{"healthy", "healthy", "down", "silent"}).Draw(t, "state")
		fs := newHBServer()
		defer fs.Close()
		rel := hx.NewRelay("unix", fs.Addr)
		defer rel.Close()
		var opts []client.ServerOpt
		if interval > 0 {
			opts = append(opts, heartbeatOpt(interval, auto))
		}
		c := rel.Dial(proto, "srv", opts...)
		switch state {
		case "down":
			rel.Down()
		case "silent":
			fs.silent.Store(true)
		}
		closers := rapid.IntRange(1, 3).Draw(t, "closers")
		users := rapid.IntRange(0, 4).Draw(t, "users")
		reconnectors := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "reconnectors")
		wait := time.Duration(rapid.SampledFrom([]int{0, 0, 200, 1000, 5000, 20000}).Draw(t, "before_us")) * time.Microsecond
		desc := fmt.Sprintf("%s heartbeat %v auto=%v server %s, %d users, %d reconnectors, %d closers after %v", proto, interval, auto, state, users, reconnectors, closers, wait)
		var ops []hx.Op
		for i := 0; i < users; i++ {
			ops = append(ops, c10Op(t, rapid.SampledFrom(c10Kinds).Draw(t, "op"), false))
		}
		var wg sync.WaitGroup
		bad := make([]string, users+closers)
		for i := 0; i < users; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				// until the client is closed
				for {
					if r := hx.Do(c, ops[i]); r.Err != nil {
						if r.Kind != hx.Other {
							bad[i] = fmt.Sprintf("%s returned %v", ops[i], r)
						}
						return
					}
				}
			}()
		}
		for i := 0; i < closers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(wait)
				c.Close()
			}()
		}
		for i := 0; i < reconnectors; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				// until the client is closed (or the server is down)
				for n := 0; n < 2000 && c.Reconnect() == nil; n++ {
				}
			}()
		}
		if msg := hx.Try(wg.Wait); msg != "" {
			t.Fatalf("%s: calls and Close did not return: %s", desc, msg)
		}
		for _, b := range bad {
			if b != "" {
				t.Fatalf("%s: %s", desc, b)
			}
		}
		if msg := hx.Try(func() { c.Close() }); msg != "" {
			t.Fatalf("%s: closing again: %s", desc, msg)
		}
		rel.Up()
		fs.silent.Store(false)
		// A probe or reconnect that was under way may have ended just now;
		// after that nothing may come: no connection is made or open, and
		// so no request comes either.
		now := func() (accepted int, idle bool) {
			rel.Flush()
			open, accepted := rel.Conns()
			return accepted, open == 0 && fs.open.Load() == 0
		}
		window := 4*interval + 2*time.Millisecond
		quiet := func() (accepted int, calm bool) {
			for start, n := time.Now(), 0; n < 30 || time.Since(start) < longWait/4; n++ {
				was, idle := now()
				time.Sleep(window)
				is, stillIdle := now()
				if idle && stillIdle && was == is {
					return is, true
				}
			}
			s, _ := now()
			return s, false
		}
		before, calm := quiet()
		if !calm {
			open, accepted := rel.Conns()
			t.Fatalf("%s: the client does not come to rest after Close: %d connections open, %d made so far, %d requests", desc, open, accepted, fs.requests.Load())
		}
		for i := 0; i < 2; i++ {
			if r := hx.Run(t, c, c10Op(t, rapid.SampledFrom(c10Kinds).Draw(t, "after"), false)); r.Kind != hx.Other {
				t.Fatalf("%s: call after Close returned %v", desc, r)
			}
		}
		if after, calm := quiet(); !calm || after != before {
			t.Fatalf("%s: %d connections were made by calls after Close", desc, after-before)
		}
		// Nothing of the client runs any more.
		var left string
		if !hx.WaitFor(longWait, func() bool { left = clientGoroutine(); return left == "" }) {
			t.Fatalf("%s: a goroutine of the closed client still runs:\n%s", desc, left)
		}
		hx.Case(desc, interval > 0 || users+reconnectors > 0, "close:"+state, fmt.Sprintf("reconnectors: %d", reconnectors), fmt.Sprintf("closers: %d", closers))
	})
}

// C15: what the client's own options ask for, with their own interval.
func TestC15_Options(t *testing.T) {
	hx.Check(t, 1, 40, func(t *rapid.T) {
		type one struct {
			proto string
			opts  []client.ServerOpt
			name  string
			auto  bool
		}
		var all []one
		for _, p := range hx.Protocols {
			all = append(all, one{p, []client.ServerOpt{client.EnableHeartbeat}, "heartbeat", false},
				one{p, []client.ServerOpt{client.EnableHeartbeat, client.EnableAutoReconnect}, "heartbeat, auto-reconnect", true},
				one{p, []client.ServerOpt{client.EnableAutoReconnect, client.EnableHeartbeat}, "auto-reconnect, heartbeat", true})
		}
		probes := rapid.IntRange(1, 2).Draw(t, "probes")
		outages := rapid.IntRange(1, 2).Draw(t, "outages")
		bad := make([]string, len(all))
		var wg sync.WaitGroup
		for i, o := range all {
			wg.Add(1)
			go func() {
				defer wg.Done()
				fs := newHBServer()
				defer fs.Close()
				c := hx.MustDial(o.proto, "srv", "unix", fs.Addr, o.opts...)
				defer closeQuiet(c)
				works := func() bool {
					r := hx.Do(c, hx.Op{Kind: "get", Key: "k"})
					return r.Err == nil && string(r.Item.Value) == "value-of-k"
				}
				if !works() {
					bad[i] = "does not work at first"
					return
				}
				if !hx.WaitFor(longWait, func() bool { return fs.versions.Load() >= int64(probes) }) {
					bad[i] = fmt.Sprintf("%d probes within %v", fs.versions.Load(), longWait)
					return
				}
				if !works() || fs.accepted.Load() != 1 {
					bad[i] = "the healthy connection was not left intact"
					return
				}
				if !o.auto {
					fs.halfClose()
					if !hx.WaitFor(longWait, func() bool { return fs.open.Load() == 0 }) {
						bad[i] = "the dead connection was not closed"
						return
					}
					time.Sleep(1500 * time.Millisecond)
					if r := hx.Do(c, hx.Op{Kind: "get", Key: "k"}); r.Kind != hx.Other || fs.accepted.Load() != 1 {
						bad[i] = fmt.Sprintf("after the dead connection was closed: get: %v, %d connections made", r, fs.accepted.Load())
					}
					return
				}
				for n := 1; n <= outages; n++ {
					fs.halfClose()
					if !hx.WaitFor(longWait, works) {
						bad[i] = fmt.Sprintf("not usable after outage %d", n)
						return
					}
				}
			}()
		}
		wg.Wait()
		for i, o := range all {
			if bad[i] != "" {
				t.Fatalf("%s client with %s: %s", o.proto, o.name, bad[i])
			}
		}
		hx.Case(fmt.Sprintf("options: %d probes, %d outages", probes, outages), true, "options")
	})
}
