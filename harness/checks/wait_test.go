package checks

import (
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/server"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// The tests of this file wait for a minute (thorough: five): all of a test's
// connections wait at once, in a process of its own that runs beside the
// shards of its check. They look for limits on time that nobody asked for.
func longTime() time.Duration {
	if hx.Thorough() {
		return 305 * time.Second
	}
	return 62 * time.Second
}

// drawWaits makes a long pause at one of n places and short ones elsewhere.
func drawWaits(n int) func(*rapid.T, string) []time.Duration {
	return func(t *rapid.T, label string) []time.Duration {
		ps := make([]time.Duration, n)
		for i := range ps {
			ps[i] = time.Duration(rapid.SampledFrom([]int{0, 0, 700}).Draw(t, "short")) * time.Millisecond
		}
		ps[rapid.IntRange(0, n-1).Draw(t, label)] = longTime()
		return ps
	}
}

// atOnce runs n drawn cases at the same time. A failing one is not shrunk,
// which would take minutes.
func atOnce(n int, draw func(t *rapid.T, i int) (desc string, run func() string), label string) func(*rapid.T) {
	return func(t *rapid.T) {
		descs, bad := make([]string, n), make([]string, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			i := i
			var run func() string
			descs[i], run = draw(t, i)
			wg.Add(1)
			go func() {
				defer wg.Done()
				bad[i] = run()
			}()
		}
		wg.Wait()
		for i, b := range bad {
			if b != "" {
				hx.Violated("%s: %s", descs[i], b)
			}
			hx.Case(descs[i], true, label)
		}
	}
}

// C21: connections that are silent for a minute, between requests or within
// one.
func TestC21Wait_Sender(t *testing.T) {
	hx.Check(t, 1, 1, slowSenders(300, drawWaits(2), hx.Violated))
}

// C22: clients that do not read for a minute, and handlers that take as long.
func TestC22Wait_Reader(t *testing.T) {
	hx.Check(t, 1, 1, slowReaders(90, drawWaits(3), hx.Violated))
}

// C10: a call has all of its timeout, or all the time there is without one,
// and a connection may be unused for a minute.
func TestC10Wait_Patience(t *testing.T) {
	kinds := len(c10Kinds) * len(hx.Protocols)
	hx.Check(t, 1, 1, atOnce(6*kinds, func(t *rapid.T, i int) (string, func() string) {
		// Every operation of every client six times: the long time is before
		// the first call, before the second or within the second, with and
		// without a timeout.
		kind, where, timed := i%kinds, i/kinds%3, i/kinds/3 == 1
		p := pausedScript{proto: hx.Protocols[kind%len(hx.Protocols)]}
		p.ops = []hx.Op{c10Op(t, rapid.SampledFrom(c10Kinds).Draw(t, "op"), false), c10Op(t, c10Kinds[kind/len(hx.Protocols)], false)}
		ps := make([]time.Duration, 3)
		ps[where] = longTime()
		p.wait, p.delay = ps[:2], []time.Duration{0, ps[2]}
		timeout := time.Duration(0)
		if timed {
			timeout = time.Duration(rapid.SampledFrom([]int{400, 1000, 4000}).Draw(t, "timeout")) * time.Second
		}
		p.limit = []time.Duration{timeout, timeout}
		return fmt.Sprintf("patient %+v", p), p.run
	}, "patience"))
}

// C14: so does a connection made by Reconnect.
func TestC14Wait_Reconnected(t *testing.T) {
	kinds := len(c10Kinds) * len(hx.Protocols)
	hx.Check(t, 1, 1, atOnce(3*kinds, func(t *rapid.T, i int) (string, func() string) {
		proto := hx.Protocols[i%3]
		o := c10Op(t, c10Kinds[i%kinds/3], false)
		ps := drawWaits(2)(t, "wait")
		timeout := time.Duration(rapid.SampledFrom([]int{0, 0, 400, 4000}).Draw(t, "timeout")) * time.Second
		return fmt.Sprintf("reconnected %s client, timeout %v, %v before and %v after, then %s", proto, timeout, ps[0], ps[1], o), func() string {
			fs := hx.NewFakeServer(hx.Script(func(q *hx.Req) ([]byte, bool) { return okReply(q), true }))
			defer fs.Close()
			c := hx.MustDial(proto, "srv", "unix", fs.Addr)
			defer closeQuiet(c)
			hx.SetTimeout(c, timeout)
			time.Sleep(ps[0])
			if err := c.Reconnect(); err != nil {
				return fmt.Sprintf("Reconnect: %v", err)
			}
			time.Sleep(ps[1])
			var r hx.Result
			if msg := hx.Try(func() { r = hx.Do(c, o) }); msg != "" || r.Err != nil {
				return fmt.Sprintf("%v%s", r, msg)
			}
			return ""
		}
	}, "reconnected"))
}

// C23: connections that are idle for a minute leave the server as it was, and
// are served afterwards.
func TestC23Wait_Served(t *testing.T) {
	hx.Check(t, 1, 1, func(t *rapid.T) {
		h := hx.NewMapHandler()
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			hx.Infra("listen: %v", err)
		}
		defer l.Close()
		go (&server.Server{Handler: h}).Serve(l)
		atOnce(90, func(t *rapid.T, i int) (string, func() string) {
			proto := hx.Protocols[i%3]
			ps := drawWaits(3)(t, "wait")
			key := fmt.Sprintf("key-%d", i)
			return fmt.Sprintf("%s client %d of a server, idle for %v", proto, i, ps), func() string {
				c, err := hx.Dial(proto, "srv", "tcp", l.Addr().String())
				if err != nil {
					return err.Error()
				}
				defer closeQuiet(c)
				for j, p := range ps {
					time.Sleep(p)
					want := fmt.Sprintf("%s %d", key, j)
					if r := hx.Do(c, hx.Op{Kind: "set", Key: key, Value: []byte(want)}); r.Err != nil {
						return fmt.Sprintf("set %d: %v", j, r)
					}
					if r := hx.Do(c, hx.Op{Kind: "get", Key: key}); r.Err != nil || string(r.Item.Value) != want {
						return fmt.Sprintf("get %d: %v", j, r)
					}
				}
				return ""
			}
		}, "idle clients")(t)
	})
}

// C24: a router, its backends and its clients have nothing to do for a minute.
func TestC24Wait_Idle(t *testing.T) {
	hx.Check(t, 1, 1, func(t *rapid.T) {
		r := newRouted(t)
		defer r.close()
		idleThrough(t, func(proto string) (client.Server, error) { return hx.Dial(proto, "router", "unix", r.addr) }, "C24")
	})
}

// C25: the same for the program.
func TestC25Wait_Idle(t *testing.T) {
	hx.Check(t, 1, 1, func(t *rapid.T) {
		bs := rapid.Permutation(backends()).Draw(t, "backends")
		for _, b := range bs {
			b.mc.Inspect().FlushAll()
		}
		conf := drawYAML(t, drawEntries(t, "p", bs[:2]), drawEntries(t, "s", bs[2:4]))
		p := startRouter(conf)
		defer p.stop()
		if !p.ready() {
			t.Fatalf("%q: the router does not serve: %s", conf, p.out)
		}
		idleThrough(t, func(proto string) (client.Server, error) { return hx.Dial(proto, "router", "tcp", routerAddr) }, "C25")
	})
}

// idleThrough uses a router before and after a time without any traffic.
func idleThrough(t *rapid.T, dial func(proto string) (client.Server, error), label string) {
	protos := rapid.Permutation(hx.Protocols).Draw(t, "protocols")
	const n = 24
	clients := make([]client.Server, 2*n)
	for round := 0; round < 2; round++ {
		if round == 1 {
			time.Sleep(longTime())
		}
		atOnce(n, func(t *rapid.T, i int) (string, func() string) {
			proto := protos[i%3]
			key := fmt.Sprintf("key-%d", i)
			return fmt.Sprintf("%s client %d of a router, round %d with %v between", proto, i, round, longTime()), func() string {
				// the first n clients stay, the others come new
				for j := i; j < 2*n; j += n {
					if clients[j] == nil || j >= n {
						c, err := dial(proto)
						if err != nil {
							return err.Error()
						}
						clients[j] = c
					}
					c := clients[j]
					if round == 1 && j < n {
						if r := hx.Do(c, hx.Op{Kind: "get", Key: key}); r.Err != nil || string(r.Item.Value) != key+" 0" {
							return fmt.Sprintf("get of what was set before: %v", r)
						}
						continue
					}
					want := fmt.Sprintf("%s %d", key, round)
					if r := hx.Do(c, hx.Op{Kind: "set", Key: key, Value: []byte(want)}); r.Err != nil {
						return fmt.Sprintf("set: %v", r)
					}
					if r := hx.Do(c, hx.Op{Kind: "get", Key: key}); r.Err != nil || string(r.Item.Value) != want {
						return fmt.Sprintf("get: %v", r)
					}
					if j >= n {
						closeQuiet(c)
					}
				}
				return ""
			}
		}, "idle router "+label)(t)
	}
	for _, c := range clients[:n] {
		closeQuiet(c)
	}
}
