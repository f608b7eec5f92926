package checks

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// outage is a client of a server that comes and goes.
type outage struct {
	*faultRun
	up      bool // the server can be reached
	healthy bool // the client's connection works
}

func (o *outage) note(format string, args ...interface{}) {
	o.desc = append(o.desc, fmt.Sprintf(format, args...))
}

func (o *outage) oneConnection(when string) {
	open, accepted := 0, 0
	if !hx.WaitFor(10*time.Second, func() bool { open, accepted = o.r.relay.Conns(); return open == 1 }) {
		o.fail("%s: the client holds %d connections (%d made so far), want 1", when, open, accepted)
	}
}

func (o *outage) tryReconnect() {
	var err error
	_, before := o.r.relay.Conns()
	if msg := hx.Try(func() { err = o.c.Reconnect() }); msg != "" {
		o.fail("Reconnect: %s", msg)
	}
	o.note("Reconnect (server up: %v) -> %v", o.up, err)
	if !o.up {
		if err == nil {
			o.fail("Reconnect succeeded while the server was down")
		}
		o.healthy = false
		return
	}
	if err != nil {
		o.fail("Reconnect failed although the server is reachable: %v", err)
	}
	o.healthy = true
	o.r.relay.WaitAccepted(before + 1)
	o.oneConnection("after Reconnect")
}

// C14: any sequence of outages, failed calls and failed Reconnects.
func TestC14_Outages(t *testing.T) {
	hx.Check(t, 2000, 15000, func(t *rapid.T) {
		proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		keys := hx.Keys(2, 4).Draw(t, "keys")
		r := newRig(hx.Segments().Draw(t, "segments"), proto)
		defer r.close()
		defer r.relay.Up()
		o := &outage{faultRun: &faultRun{t: t, r: r, proto: proto, c: r.c[proto], keys: keys, m: hx.NewModel()}, up: true, healthy: true}
		cfg := histCfg{kinds: allKinds, keys: keys, exps: hx.LongTTL(), values: histValue(), past: map[string][]hx.Op{}}
		work := func(n int) {
			for ; n > 0; n-- {
				op := cfg.drawOp(t, nil)
				if o.healthy {
					o.faultRun.healthy(op)
					continue
				}
				if res := o.do(op); res.Err == nil || res.Kind != hx.Other {
					o.fail("%s without a server returned %v, want an error", op, res)
				}
			}
		}
		events := rapid.IntRange(1, 14).Draw(t, "events")
		failedReconnects, recovered, failedCalls := 0, 0, 0
		for i := 0; i < events; i++ {
			switch e := rapid.SampledFrom([]string{"calls", "calls", "down", "up", "cut", "reconnect", "reconnect", "reconnect", "restart"}).Draw(t, "event"); e {
			case "calls":
				n := rapid.IntRange(1, 3).Draw(t, "n")
				if !o.healthy {
					failedCalls += n
				}
				work(n)
			case "down":
				if o.up {
					r.relay.Down()
					o.up, o.healthy = false, false
					o.note("server goes down")
				}
			case "up":
				if !o.up {
					r.relay.Up()
					o.up = true
					o.note("server comes back")
				}
			case "cut":
				if o.up {
					r.relay.CutAll()
					o.healthy = false
					o.note("connection cut")
				}
			case "restart":
				if rapid.IntRange(0, 9).Draw(t, "really") > 0 {
					continue
				}
				if o.up {
					r.relay.Down()
				}
				r.mc.Stop()
				r.mc.Start()
				r.relay.Up()
				o.up, o.healthy = true, false
				o.learn()
				o.note("server process restarted")
			case "reconnect":
				if !o.up {
					failedReconnects++
				} else if !o.healthy {
					recovered++
				}
				o.tryReconnect()
				if o.healthy {
					work(rapid.IntRange(1, 4).Draw(t, "after"))
				}
			}
		}
		// In the end it must always be possible to recover.
		if !o.up {
			r.relay.Up()
			o.up = true
			o.note("server comes back")
		}
		o.tryReconnect()
		work(3)
		o.oneConnection("in the end")
		hx.Case(proto+" "+strings.Join(o.desc, "; "), failedReconnects+recovered > 0, fmt.Sprintf("failed Reconnects: %d", min(failedReconnects, 4)), fmt.Sprintf("recoveries: %d", min(recovered, 4)))
		hx.Count("calls without a server", failedCalls)
	})
}

// C14: several who notice an outage reconnect at the same moment.
func TestC14_Together(t *testing.T) {
	hx.Check(t, 300, 9000, func(t *rapid.T) {
		proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		r := newRig(nil, proto)
		defer r.close()
		defer r.relay.Up()
		c := r.c[proto]
		n := rapid.IntRange(2, 6).Draw(t, "goroutines")
		rounds := rapid.IntRange(1, 4).Draw(t, "rounds")
		calls := rapid.IntRange(0, 2).Draw(t, "calls")
		down := rapid.Bool().Draw(t, "down")
		desc := fmt.Sprintf("%s: %d goroutines reconnect %d times with %d calls each, after an outage: %v", proto, n, rounds, calls, down)
		if down {
			r.relay.Down()
			hx.Try(func() { c.Version() })
			r.relay.Up()
		}
		bad := make([]string, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < rounds; j++ {
					var err error
					if msg := hx.Try(func() { err = c.Reconnect() }); msg != "" || err != nil {
						bad[i] = fmt.Sprintf("Reconnect: %v%s", err, msg)
						return
					}
					for k := 0; k < calls; k++ {
						if msg := hx.Try(func() { c.Version() }); msg != "" {
							bad[i] = "Version: " + msg
							return
						}
					}
				}
			}()
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				t.Fatalf("%s: %s", desc, b)
			}
		}
		if res := hx.Run(t, c, hx.Op{Kind: "set", Key: "k", Value: []byte("v")}); res.Err != nil {
			t.Fatalf("%s: set: %v", desc, res)
		}
		if open := 0; !hx.WaitFor(10*time.Second, func() bool { open, _ = r.relay.Conns(); return open == 1 }) {
			t.Fatalf("%s: the client holds %d connections", desc, open)
		}
		hx.Case(desc, true, "together")
	})
}

// C14: a pool recovers with its servers.
func TestC14_Pool(t *testing.T) {
	hx.Check(t, 400, 3000, func(t *rapid.T) {
		s := newSingle([]string{"one", "two"}, []string{rapid.SampledFrom(hx.Protocols).Draw(t, "p1"), rapid.SampledFrom(hx.Protocols).Draw(t, "p2")})
		defer s.close()
		keys := []string{"a", "b", "c", "d", "e", "f"}
		for round := rapid.IntRange(1, 3).Draw(t, "rounds"); round > 0; round-- {
			n := s.nodes[rapid.IntRange(0, 1).Draw(t, "node")]
			n.relay.Down()
			for _, k := range rapid.SliceOfN(rapid.SampledFrom(keys), 0, 4).Draw(t, "down") {
				res := hx.Run(t, s.pool, hx.Op{Kind: "set", Key: k, Value: []byte("x")})
				if (s.owner(k) == n) == (res.Err == nil) {
					t.Fatalf("set(%q) with %s down: %v (owner %s)", k, n.name, res, s.owner(k).name)
				}
			}
			for i := rapid.IntRange(0, 2).Draw(t, "failed"); i > 0; i-- {
				hx.Call(t, "Reconnect", func() {
					if n.c.Reconnect() == nil {
						t.Fatalf("Reconnect succeeded while the server was down")
					}
				})
			}
			n.relay.Up()
			hx.Call(t, "Reconnect", func() {
				if err := n.c.Reconnect(); err != nil {
					t.Fatalf("Reconnect with the server up: %v", err)
				}
			})
			for i, k := range keys {
				v := []byte(fmt.Sprint("v", round, i))
				if res := hx.Run(t, s.pool, hx.Op{Kind: "set", Key: k, Value: v}); res.Err != nil {
					t.Fatalf("set(%q) after the recovery: %v", k, res)
				}
				if st := s.owner(k).insp().Get(k); string(st.Value) != string(v) {
					t.Fatalf("set(%q) after the recovery: server holds %v", k, st)
				}
			}
			hx.Case(fmt.Sprintf("pool %s down %v", n.name, round), true, "pool")
		}
	})
}
