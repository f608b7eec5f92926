package checks

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// poolSize is up to usual, now and then up to most.
func poolSize(t *rapid.T, usual, most int, label string) int {
	if rapid.IntRange(0, 7).Draw(t, "more "+label) == 7 {
		return rapid.IntRange(usual+1, most).Draw(t, label)
	}
	return rapid.IntRange(1, usual).Draw(t, label)
}

// drawSingle makes a single pool of servers with generated names.
func drawSingle(t *rapid.T) (*single, []string) {
	n := poolSize(t, 4, 8, "servers")
	name := rapid.StringMatching(`[a-z]{1,6}[0-9]{0,2}`)
	if rapid.IntRange(0, 2).Draw(t, "odd names") == 0 {
		// Names that are easily taken for each other.
		name = rapid.SampledFrom([]string{"cache", "Cache", "CACHE", "cache ", " cache", "cache/1", "cache1", "cache01", "", "ключ", "КЛЮЧ", "cache.example.org:11211", "cache.example.org", "%s", "host\x00", "host"})
	}
	names := rapid.SliceOfNDistinct(name, n, n, rapid.ID[string]).Draw(t, "names")
	var protos []string
	for range names {
		protos = append(protos, rapid.SampledFrom(hx.Protocols).Draw(t, "proto"))
	}
	s := newSingle(names, protos)
	for i, n := range s.nodes {
		n.proto = protos[i]
	}
	return s, protos
}

// C18: a pool is one memcached, and each key has its server.
func TestC18_History(t *testing.T) {
	hx.Check(t, 600, 20000, func(t *rapid.T) {
		s, protos := drawSingle(t)
		defer s.close()
		keys := hx.Keys(2, 7).Draw(t, "keys")
		seg := hx.Segments().Draw(t, "segments")
		decoys := map[*node]map[string]hx.State{}
		for _, n := range s.nodes {
			n.relay.Segments(seg)
			decoys[n] = map[string]hx.State{}
			for _, k := range keys {
				if s.owner(k) != n && rapid.Bool().Draw(t, "decoy") {
					n.insp().Set(k, []byte("77"), 99, 0)
				}
				if s.owner(k) != n {
					decoys[n][k] = n.insp().Get(k)
				}
			}
		}
		m := hx.NewModel()
		h := &history{}
		cfg := histCfg{kinds: allKinds, keys: keys, exps: hx.LongTTL(), values: histValue(), past: map[string][]hx.Op{}}
		var tokens []uint64
		used := map[string]bool{}
		n := rapid.IntRange(1, 20).Draw(t, "length")
		for i := 0; i < n; i++ {
			o := cfg.drawOp(t, tokens)
			proto := ""
			if o.Key != "" {
				proto = s.owner(o.Key).proto
				used[s.owner(o.Key).name] = true
			}
			if o.Kind == "replace" && proto == hx.Binary {
				o.Cas = 0
			}
			exp := m.Step(proto, o)
			res := hx.Run(t, s.pool, o)
			h.add("pool", o, res)
			if msg := m.CheckResult(proto, o, exp, res); msg != "" {
				t.Fatalf("step %d: %s\nhistory: %s", i, msg, h)
			}
			if msg := res.From(func(k string) (string, string) { n := s.owner(k); return n.name, n.proto }); msg != "" {
				t.Fatalf("step %d: %s\nhistory: %s", i, msg, h)
			}
			switch o.Kind {
			case "version":
				v, err := s.pool.Version()
				for _, x := range s.nodes {
					if err != nil || "VERSION "+v[x.name] != x.insp().Raw("version") {
						t.Fatalf("Version: %v, %v; %q says %s", v, err, x.name, x.insp().Raw("version"))
					}
				}
				if len(v) != len(s.nodes) {
					t.Fatalf("Version: %v for %d servers", v, len(s.nodes))
				}
			case "flush":
				for _, x := range s.nodes {
					for k := range decoys[x] {
						decoys[x][k] = hx.State{}
					}
				}
			}
			tokens = append(tokens, tokensOf(res)...)
			for _, k := range keys {
				if msg := m.CheckState(k, s.owner(k).insp().Get(k)); msg != "" {
					t.Fatalf("step %d: after %s -> %v: %s\nhistory: %s", i, o, res, msg, h)
				}
			}
			for _, x := range s.nodes {
				for k, d := range decoys[x] {
					if now := x.insp().Get(k); now.Exists != d.Exists || now.Cas != d.Cas || !bytes.Equal(now.Value, d.Value) || now.Stale != d.Stale || now.TTL != d.TTL && d.TTL < 0 {
						t.Fatalf("step %d: %s changed %q on %q, which is not its server (that is %q), from %v to %v\nhistory: %s", i, o, k, x.name, s.owner(k).name, d, now, h)
					}
				}
			}
		}
		hx.Case(fmt.Sprintf("%v: %s", protos, h), len(used) > 1, append(h.labels(), fmt.Sprintf("servers: %d", len(s.nodes)))...)
	})
}

// C18: errors of any server involved are reported.
func TestC18_Down(t *testing.T) {
	hx.Check(t, 250, 8000, func(t *rapid.T) {
		s, protos := drawSingle(t)
		defer s.close()
		keys := hx.Keys(3, 8).Draw(t, "keys")
		for _, k := range keys {
			if rapid.Bool().Draw(t, "plant") {
				s.owner(k).insp().Set(k, []byte("5"), 1, 0)
			}
			// what lies on other servers is no answer
			for _, n := range s.nodes {
				if n != s.owner(k) && rapid.Bool().Draw(t, "decoy") {
					n.insp().Set(k, []byte("77"), 99, 0)
				}
			}
		}
		down := s.nodes[rapid.IntRange(0, len(s.nodes)-1).Draw(t, "down")]
		down.relay.Down()
		desc := fmt.Sprintf("%v, %s down: ", protos, down.name)
		hit := false
		n := rapid.IntRange(1, 8).Draw(t, "calls")
		cfg := histCfg{kinds: allKinds, keys: keys, exps: hx.LongTTL(), values: histValue(), past: map[string][]hx.Op{}}
		for i := 0; i < n; i++ {
			o := cfg.drawOp(t, nil)
			involved := false
			switch o.Kind {
			case "flush", "version":
				involved = true
			case "getmulti":
				for _, k := range o.Keys {
					involved = involved || s.owner(k) == down
				}
			default:
				involved = s.owner(o.Key) == down
			}
			res := hx.Run(t, s.pool, o)
			desc += fmt.Sprintf("%s -> %s; ", o, res.Kind)
			if involved {
				hit = true
				if res.Kind != hx.Other {
					t.Fatalf("%s: %s involves the server that is down but returned %v", desc, o, res)
				}
			} else if res.Kind == hx.Other && o.Kind != "incr" && o.Kind != "decr" && o.Kind != "touch" {
				t.Fatalf("%s: %s does not involve the server that is down but returned %v", desc, o, res)
			}
		}
		hx.Case(desc, hit, "server down")
	})
}

// C18: Close closes all servers, whatever happens to some.
func TestC18_Close(t *testing.T) {
	hx.Check(t, 150, 4000, func(t *rapid.T) {
		s, protos := drawSingle(t)
		defer s.close()
		failing := 0
		desc := fmt.Sprintf("%v Close with", protos)
		for _, n := range s.nodes {
			switch rapid.SampledFrom([]string{"up", "up", "closed", "down"}).Draw(t, "state") {
			case "closed":
				failing++
				closeQuiet(n.c)
				desc += " closed"
			case "down":
				n.relay.Down()
				desc += " down"
			default:
				desc += " up"
			}
		}
		var err error
		hx.Call(t, desc, func() { err = s.pool.Close() })
		if failing > 0 && err == nil {
			t.Fatalf("%s: the error of closing %d servers is not reported", desc, failing)
		}
		for _, n := range s.nodes {
			open := 0
			if !hx.WaitFor(10*time.Second, func() bool { open, _ = n.relay.Conns(); return open == 0 }) {
				t.Fatalf("%s: %d connections to %s are still open", desc, open, n.name)
			}
			if res := hx.Run(t, n.c, hx.Op{Kind: "get", Key: "a"}); res.Kind != hx.Other {
				t.Fatalf("%s: get from %s after Close: %v", desc, n.name, res)
			}
		}
		if failing == 0 && err != nil && !strings.Contains(desc, "down") {
			t.Fatalf("%s: %v", desc, err)
		}
		hx.Case(desc+fmt.Sprint(len(s.nodes)), failing > 0, fmt.Sprintf("closing fails: %d of %d", failing, len(s.nodes)))
	})
}
