package checks

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

var replicaKinds = []string{"get", "getmulti", "set", "set", "set", "add", "replace", "delete", "incr", "incr", "decr"}

func drawReplica(t *rapid.T) *replica {
	np, ns := poolSize(t, 3, 6, "primaries"), poolSize(t, 3, 6, "secondaries")
	if rapid.IntRange(0, 4).Draw(t, "names") > 0 {
		return newReplica(np, ns)
	}
	// Names of all kinds; a primary and a secondary may have the same.
	name := rapid.SampledFrom([]string{"a", "A", "b", "c", "d ", "d", "", "cache.example.org:11211", "10.0.0.1:11211", "primary-0", "secondary-0", "ключ"})
	draw := func(n int, label string) []string {
		return rapid.SliceOfNDistinct(name, n, n, rapid.ID[string]).Draw(t, label)
	}
	return newReplicaNames(draw(np, "pnames"), draw(ns, "snames"))
}

// sameState compares what two servers hold under a key.
func sameState(a, b hx.State) bool {
	if a.Exists != b.Exists {
		return false
	}
	if !a.Exists {
		return true
	}
	if !bytes.Equal(a.Value, b.Value) || a.Flags != b.Flags || a.Stale != b.Stale {
		return false
	}
	if a.TTL < 0 || b.TTL < 0 {
		return a.TTL < 0 && b.TTL < 0
	}
	// both at the same moment
	d := a.TTL - b.TTL - int64(b.At.Sub(a.At)/time.Second)
	return d >= -hx.TTLSlack() && d <= hx.TTLSlack()
}

// untouched says whether a server still holds the very same item.
func untouched(before, now hx.State) bool {
	return before.Exists == now.Exists && before.Cas == now.Cas && sameState(before, now)
}

// snapshot is the state of some keys on some servers.
type snapshot map[*node]map[string]hx.State

func snap(nodes []*node, keys []string) snapshot {
	s := snapshot{}
	for _, n := range nodes {
		s[n] = map[string]hx.State{}
		for _, k := range keys {
			s[n][k] = n.insp().Get(k)
		}
	}
	return s
}

// changed lists what is different now, apart from one key on one server.
func (s snapshot) changed(exceptNode *node, exceptKey string) string {
	for n, m := range s {
		for k, before := range m {
			if n == exceptNode && k == exceptKey {
				continue
			}
			if now := n.insp().Get(k); !untouched(before, now) {
				return fmt.Sprintf("%q on %s changed from %v to %v", k, n.name, before, now)
			}
		}
	}
	return ""
}

// plantAnything puts arbitrary items under the keys on the servers.
func plantAnything(t *rapid.T, nodes []*node, keys []string) {
	for _, n := range nodes {
		for _, k := range keys {
			if rapid.IntRange(0, 2).Draw(t, "planted") == 0 {
				n.insp().Set(k, histValue().Draw(t, "pvalue"), hx.Flags32().Draw(t, "pflags"), int64(hx.LongTTL().Draw(t, "pttl")))
			}
		}
	}
}

// C19: after a successful write the secondary equals the primary.
func TestC19_Replication(t *testing.T) {
	hx.Check(t, 600, 20000, func(t *rapid.T) {
		r := drawReplica(t)
		defer r.close()
		keys := hx.Keys(1, 4).Draw(t, "keys")
		plantAnything(t, r.sec, keys)
		plantAnything(t, r.prim, keys)
		m := hx.NewModel()
		for _, k := range keys {
			m.Unsure[k] = true
			m.CheckState(k, r.primary(k).insp().Get(k))
		}
		cfg := histCfg{kinds: replicaKinds, keys: keys, exps: histExp(), values: histValue(), past: map[string][]hx.Op{}}
		var tokens []uint64
		h := &history{}
		replicated := 0
		n := rapid.IntRange(1, 15).Draw(t, "length")
		for i := 0; i < n; i++ {
			o := cfg.drawOp(t, tokens)
			if rapid.IntRange(0, 2).Draw(t, "current") == 0 && o.Kind == "set" && m.M[o.Key] != nil {
				o.Cas = m.M[o.Key].Cas
			}
			prims, secs := snap(r.prim, keys), snap(r.sec, keys)
			exp := m.Step(hx.Meta, o)
			res := hx.Run(t, r.pool, o)
			h.add("pool", o, res)
			fail := func(format string, args ...interface{}) {
				t.Fatalf("step %d: %s -> %v: %s\nhistory: %s", i, o, res, fmt.Sprintf(format, args...), h)
			}
			if msg := m.CheckResult(hx.Meta, o, exp, res); msg != "" {
				fail("%s", msg)
			}
			if msg := res.From(func(k string) (string, string) { return r.primary(k).name, hx.Meta }); msg != "" {
				fail("%s", msg)
			}
			tokens = append(tokens, tokensOf(res)...)
			for _, k := range keys {
				if msg := m.CheckState(k, r.primary(k).insp().Get(k)); msg != "" {
					fail("primary: %s", msg)
				}
			}
			write := o.Kind != "get" && o.Kind != "getmulti"
			if !write || res.Err != nil {
				if msg := secs.changed(nil, ""); msg != "" {
					fail("%s", msg)
				}
				if msg := prims.changed(nil, ""); msg != "" && (!write || res.Kind != hx.Other) {
					fail("%s", msg)
				}
				continue
			}
			replicated++
			p, s := r.primary(o.Key), r.secondary(o.Key)
			if ps, ss := p.insp().Get(o.Key), s.insp().Get(o.Key); !sameState(ps, ss) {
				fail("primary %s holds %v but secondary %s holds %v", p.name, ps, s.name, ss)
			}
			if msg := secs.changed(s, o.Key); msg != "" {
				fail("%s", msg)
			}
			if msg := prims.changed(p, o.Key); msg != "" {
				fail("%s", msg)
			}
		}
		hx.Count("writes replicated", replicated)
		hx.Case(fmt.Sprintf("%d+%d %s", len(r.prim), len(r.sec), h), replicated > 0, h.labels()...)
	})
}

// C20: reads come from the primary alone.
func TestC20_Reads(t *testing.T) {
	hx.Check(t, 400, 12000, func(t *rapid.T) {
		r := drawReplica(t)
		defer r.close()
		keys := hx.Keys(2, 6).Draw(t, "keys")
		plantAnything(t, r.sec, keys)
		plantAnything(t, r.prim, keys)
		m := hx.NewModel()
		for _, k := range keys {
			m.Unsure[k] = true
			m.CheckState(k, r.primary(k).insp().Get(k))
		}
		desc := fmt.Sprintf("%d+%d", len(r.prim), len(r.sec))
		downs := map[*node]bool{}
		for _, n := range r.sec {
			if rapid.IntRange(0, 2).Draw(t, "secdown") > 0 {
				downs[n] = true
				n.relay.Down()
				desc += " " + n.name + " down"
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "primdown") == 0 {
			n := r.prim[rapid.IntRange(0, len(r.prim)-1).Draw(t, "which")]
			downs[n] = true
			n.relay.Down()
			desc += " " + n.name + " down"
		}
		cfg := histCfg{kinds: []string{"get", "getmulti"}, keys: keys}
		n := rapid.IntRange(1, 8).Draw(t, "reads")
		hits := 0
		for i := 0; i < n; i++ {
			o := cfg.drawOp(t, nil)
			ks := o.Keys
			if o.Kind == "get" {
				ks = []string{o.Key}
			}
			down := false
			for _, k := range ks {
				down = down || downs[r.primary(k)]
			}
			res := hx.Run(t, r.pool, o)
			desc += fmt.Sprintf("; %s -> %s", o, res.Kind)
			if down {
				if res.Kind != hx.Other {
					t.Fatalf("%s: the primary is down", desc)
				}
				continue
			}
			exp := m.Step(hx.Meta, o)
			if msg := m.CheckResult(hx.Meta, o, exp, res); msg != "" {
				t.Fatalf("%s: %s", desc, msg)
			}
			if res.Item != nil || len(res.Items) > 0 {
				hits++
			}
		}
		hx.Case(desc, hits > 0, "reads", fmt.Sprintf("servers down: %d", len(downs)))
	})
}

// C20: a write that the primary refuses or that does not reach it.
func TestC20_PrimaryFails(t *testing.T) { hx.Check(t, 500, 15000, primaryFails(true)) }

// C19: nor is one that did not get to the secondary a success.
func TestC19_PrimaryFails(t *testing.T) { hx.Check(t, 300, 9000, primaryFails(false)) }

// primaryFails makes writes while the primary fails or refuses. What of it was
// successful has to be on the secondary; all says whether the refusals, and
// what they leave behind, are looked at, too.
func primaryFails(all bool) func(t *rapid.T) {
	return func(t *rapid.T) {
		r := drawReplica(t)
		defer r.close()
		keys := hx.Keys(1, 4).Draw(t, "keys")
		plantAnything(t, r.sec, keys)
		plantAnything(t, r.prim, keys)
		desc := fmt.Sprintf("%d+%d", len(r.prim), len(r.sec))
		how := rapid.SampledFrom([]string{"down", "cut", "cut", "refuse", "refuse"}).Draw(t, "how")
		cfg := histCfg{kinds: []string{"set", "add", "replace", "delete", "incr", "decr"}, keys: keys, exps: hx.LongTTL(), values: histValue()}
		failed := 0
		m := hx.NewModel()
		n := rapid.IntRange(1, 5).Draw(t, "writes")
		for i := 0; i < n; i++ {
			for _, k := range keys {
				m.Unsure[k] = true
				m.CheckState(k, r.primary(k).insp().Get(k))
			}
			o := cfg.drawOp(t, nil)
			p, s := r.primary(o.Key), r.secondary(o.Key)
			if how == "refuse" {
				// tokens that are not the current one, values that are too large
				switch rapid.IntRange(0, 2).Draw(t, "refusal") {
				case 0:
					o = hx.Op{Kind: "set", Key: o.Key, Value: []byte("x"), Cas: 1 << 61}
				case 1:
					o = hx.Op{Kind: "set", Key: o.Key, Value: hx.Fill(hx.OverLimit, 1)}
				}
			}
			secs := snap(r.sec, keys)
			switch how {
			case "down":
				p.relay.Down()
			case "cut":
				f := hx.Fault{Kind: hx.FaultCut, Request: rapid.Bool().Draw(t, "request"), After: rapid.IntRange(0, 40).Draw(t, "after")}
				p.relay.Arm(f)
				desc += fmt.Sprintf("; cut %+v", f)
			}
			exp := m.Step(hx.Meta, o)
			res := hx.Run(t, r.pool, o)
			desc += fmt.Sprintf("; %s -> %s", o, res.Kind)
			if all && how == "down" && res.Kind != hx.Other {
				t.Fatalf("%s: the primary is down", desc)
			}
			// a refusal for the reason the model knows is reported as such
			if all && how == "refuse" {
				if msg := m.CheckResult(hx.Meta, o, exp, res); msg != "" {
					t.Fatalf("%s: %s", desc, msg)
				}
			}
			if res.Err == nil {
				if ps, ss := p.insp().Get(o.Key), s.insp().Get(o.Key); !sameState(ps, ss) {
					t.Fatalf("%s: primary holds %v but secondary holds %v", desc, ps, ss)
				}
			} else {
				failed++
				if msg := secs.changed(nil, ""); all && msg != "" {
					t.Fatalf("%s: the write failed, yet %s", desc, msg)
				}
			}
			if how != "refuse" {
				p.relay.Arm(hx.Fault{})
				p.relay.Up()
				if err := p.c.Reconnect(); err != nil {
					t.Fatalf("%s: Reconnect: %v", desc, err)
				}
			}
		}
		hx.Case(desc, failed > 0, "primary: "+how)
	}
}

// C20: a write that the secondary does not take is an error.
func TestC20_SecondaryFails(t *testing.T) { hx.Check(t, 400, 12000, secondaryFails(true)) }

// C19: it is no success.
func TestC19_SecondaryFails(t *testing.T) { hx.Check(t, 300, 9000, secondaryFails(false)) }

func secondaryFails(all bool) func(t *rapid.T) {
	return func(t *rapid.T) {
		how := rapid.SampledFrom([]string{"down", "cut", "refuse", "refuse"}).Draw(t, "how")
		key := hx.Key().Draw(t, "key")
		prim := makeNode(0, "p", hx.Meta)
		defer func() { closeQuiet(prim.c); prim.relay.CutAll() }()
		line := rapid.SampledFrom([]string{"SERVER_ERROR out of memory storing object", "NS", "EX", "NF", "ERROR", "CLIENT_ERROR bad data chunk", "SERVER_ERROR object too large for cache", "EN"}).Draw(t, "line")
		refusing := false
		fs := hx.NewFakeServer(hx.Script(func(q *hx.Req) ([]byte, bool) {
			if refusing {
				return []byte(line + "\r\n"), true
			}
			return okReply(q), true
		}))
		defer fs.Close()
		rel := hx.NewRelay("unix", fs.Addr)
		defer rel.Close()
		sec := rel.Dial(hx.Meta, "s").(*client.ServerWithMetaProtocol)
		defer closeQuiet(sec)
		pool := cluster.NewReplicaPool([]*client.ServerWithMetaProtocol{prim.c.(*client.ServerWithMetaProtocol)}, []*client.ServerWithMetaProtocol{sec})
		m := hx.NewModel()
		if rapid.Bool().Draw(t, "planted") {
			prim.insp().Set(key, []byte(rapid.SampledFrom([]string{"5", "text"}).Draw(t, "value")), 1, 0)
		}
		m.Unsure[key] = true
		m.CheckState(key, prim.insp().Get(key))
		cfg := histCfg{kinds: []string{"set", "add", "replace", "delete", "incr", "decr"}, keys: []string{key}, exps: hx.LongTTL(), values: histValue()}
		o := cfg.drawOp(t, nil)
		if o.Kind == "set" && m.M[key] != nil && rapid.Bool().Draw(t, "cas") {
			o.Cas = m.M[key].Cas
		}
		if how == "refuse" && o.Kind == "delete" && line == "NF" {
			line = "SERVER_ERROR" // nothing there to delete is no failure
		}
		switch how {
		case "down":
			rel.Down()
		case "cut":
			rel.Arm(hx.Fault{Kind: hx.FaultCut, Request: rapid.Bool().Draw(t, "request"), After: rapid.IntRange(0, 3).Draw(t, "after")})
		case "refuse":
			refusing = true
		}
		exp := m.Step(hx.Meta, o)
		res := hx.Run(t, pool, o)
		desc := fmt.Sprintf("secondary %s %s: %s", how, line, o)
		applies := true
		for _, k := range exp.Kinds {
			if k != hx.OK {
				applies = false
			}
		}
		if len(exp.Kinds) == 0 {
			applies = false
		}
		if applies && res.Err == nil {
			t.Fatalf("%s: reported as success: %v", desc, res)
		}
		if all && !applies {
			if msg := m.CheckResult(hx.Meta, o, exp, res); msg != "" {
				t.Fatalf("%s: %s", desc, msg)
			}
		}
		hx.Case(desc+" "+strings.Join(exp.Kinds, ","), applies, "secondary: "+how)
	}
}
