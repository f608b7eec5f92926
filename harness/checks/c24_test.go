package checks

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/proxy"
	"go.f110.dev/go-memcached/server"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// routed is a router on a unix socket in front of a replica pool.
type routed struct {
	*replica
	addr string
	stop func()
}

func newRouted(t *rapid.T) *routed {
	r := &routed{replica: drawReplica(t)}
	r.addr, r.stop = serveUnix(proxy.NewReplicaProxy(r.pool))
	return r
}

func (r *routed) close() {
	r.stop()
	r.replica.close()
}

func (r *routed) all() []*node { return append(append([]*node{}, r.prim...), r.sec...) }

var routedKinds = map[string][]string{
	hx.Text:   {"get", "getmulti", "set", "set"},
	hx.Meta:   {"get", "set"},
	hx.Binary: {"get", "set"},
}

// C24: histories of clients of all protocols equal those on one memcached.
func TestC24_History(t *testing.T) {
	hx.Check(t, 500, 16000, func(t *rapid.T) {
		r := newRouted(t)
		defer r.close()
		rel := hx.NewRelay("unix", r.addr)
		defer rel.Close()
		rel.Segments(hx.Segments().Draw(t, "segments"))
		keys := hx.Keys(1, 4).Draw(t, "keys")
		plantAnything(t, r.sec, keys)
		plantAnything(t, r.prim, keys)
		m := hx.NewModel()
		for _, k := range keys {
			m.Unsure[k] = true
			m.CheckState(k, r.primary(k).insp().Get(k))
		}
		clients := map[string]hx.API{}
		for _, p := range hx.Protocols {
			c := rel.Dial(p, "router")
			defer closeQuiet(c)
			clients[p] = c
		}
		hist := &history{}
		var tokens []uint64
		past := map[string][]hx.Op{}
		stored := 0
		for i, n := 0, rapid.IntRange(1, 15).Draw(t, "length"); i < n; i++ {
			proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
			cfg := histCfg{kinds: routedKinds[proto], keys: keys, exps: histExp(), values: histValue(), big: true, past: past}
			o := cfg.drawOp(t, tokens)
			if rapid.IntRange(0, 2).Draw(t, "current") == 0 && o.Kind == "set" && m.M[o.Key] != nil {
				o.Cas = m.M[o.Key].Cas
			}
			before := snap(r.all(), keys)
			exp := m.Step(proto, o)
			res := hx.Run(t, clients[proto], o)
			hist.add(proto, o, res)
			fail := func(format string, args ...interface{}) {
				t.Fatalf("%d+%d step %d: %s via %s -> %v: %s\nhistory: %s", len(r.prim), len(r.sec), i, o, proto, res, fmt.Sprintf(format, args...), hist)
			}
			if msg := m.CheckResult(proto, o, exp, res); msg != "" {
				fail("%s", msg)
			}
			tokens = append(tokens, tokensOf(res)...)
			for _, k := range keys {
				if msg := m.CheckState(k, r.primary(k).insp().Get(k)); msg != "" {
					fail("primary: %s", msg)
				}
			}
			p, s := r.primary(keys[0]), r.secondary(keys[0])
			if o.Key != "" {
				p, s = r.primary(o.Key), r.secondary(o.Key)
			}
			switch {
			case o.Kind == "set" && res.Err == nil:
				stored++
				if ps, ss := p.insp().Get(o.Key), s.insp().Get(o.Key); !sameState(ps, ss) {
					fail("primary %s holds %v but secondary %s holds %v", p.name, ps, s.name, ss)
				}
				for n, st := range before {
					for k, b := range st {
						if now := n.insp().Get(k); k != o.Key && !untouched(b, now) || n != p && n != s && !untouched(b, now) {
							fail("%q on %s changed from %v to %v", k, n.name, b, now)
						}
					}
				}
			case o.Kind == "set" && res.Kind == hx.Other:
				// The primary may have dropped the item that was to be replaced.
				for n, st := range before {
					for k, b := range st {
						if now := n.insp().Get(k); !untouched(b, now) && !(n == p && k == o.Key && !now.Exists) {
							fail("%q on %s changed from %v to %v", k, n.name, b, now)
						}
					}
				}
			default:
				if msg := before.changed(nil, ""); msg != "" {
					fail("%s", msg)
				}
			}
			if res.Kind == hx.Other {
				// The router may have ended this connection.
				c := rel.Dial(proto, "router")
				defer closeQuiet(c)
				clients[proto] = c
			}
		}
		hx.Case(fmt.Sprintf("%d+%d %s", len(r.prim), len(r.sec), hist), stored > 0 && len(hist.lines) > 1, hist.labels()...)
	})
}

// C24: any number of clients at once.
func TestC24_Concurrent(t *testing.T) {
	hx.Check(t, 240, 4000, func(t *rapid.T) {
		r := newRouted(t)
		defer r.close()
		shared := []string{"a", "b", "c"}[:rapid.IntRange(1, 3).Draw(t, "keys")]
		all := append([]string{}, shared...)
		n := rapid.IntRange(2, 6).Draw(t, "clients")
		var gs []*goroutine
		var own, desc []string
		for i := 0; i < n; i++ {
			proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
			k := fmt.Sprintf("own%d", i)
			own, all = append(own, k), append(all, k)
			g := drawScripts(t, append([]string{k}, shared...), routedKinds[proto], 1, 12)[0]
			for j := range g.ops {
				if g.ops[j].Kind == "set" {
					g.ops[j].Flags = hx.U32(uint32(i*1000 + j))
					g.ops[j].Value = append([]byte(fmt.Sprintf("%d.%d.", i, j)), g.ops[j].Value...)
				}
			}
			c := hx.MustDial(proto, "router", "unix", r.addr)
			defer closeQuiet(c)
			g.api, g.protoOf = c, func(string) string { return proto }
			gs = append(gs, g)
			desc = append(desc, proto)
		}
		h := runAll(t, gs, "")
		ov := overlapping(h)
		h = finals(h, all, func(k string) hx.State { return r.primary(k).insp().Get(k) }, func(string) string { return hx.Meta })
		checkLin(t, "through the router", h)
		for _, k := range own {
			p, s := r.primary(k).insp().Get(k), r.secondary(k).insp().Get(k)
			if !sameState(p, s) {
				t.Fatalf("key %q, written by one client only: primary %v, secondary %v", k, p, s)
			}
		}
		hx.Count("operations overlapping another", ov)
		hx.Case("concurrent "+strings.Join(desc, " ")+" "+describe(h), ov > 0, "concurrent", fmt.Sprintf("clients: %d", n))
	})
}

// routedReq draws one request of those that the router supports.
func routedReq(t *rapid.T, keys []string, tokens []uint64, cmds []string) hx.WireReq {
	for {
		w := hx.ReqGen{Cmds: cmds, Key: rapid.SampledFrom(keys), Value: histValue()}.Draw(t)
		if w.Exp > math.MaxInt32 || w.Exp > 0 && w.Exp < 1000 {
			// The meta protocol of the backends does not have the former, and
			// the latter end during the test.
			continue
		}
		switch w.Cmd {
		case "ms":
			if w.Token('I') {
				w.Tokens = nil
				w.Raw = append([]byte(fmt.Sprintf("ms %s %d\r\n", w.Keys[0], len(w.Value))), append(w.Value, '\r', '\n')...)
				w.HasCas, w.Cas, w.HasExp, w.Exp, w.Flags = false, 0, false, 0, 0
			}
		}
		if w.HasCas && len(tokens) > 0 && rapid.IntRange(0, 3).Draw(t, "seen") > 0 {
			w = w.WithCas(tokens[len(tokens)-1-rapid.IntRange(0, len(tokens)-1).Draw(t, "token")])
		}
		return w
	}
}

// modelAnswer is what memcached would answer.
func modelAnswer(m *hx.Model, w hx.WireReq) hx.Answer {
	hit := func(k string) *server.Response {
		e := m.M[k]
		if e == nil {
			return &server.Response{Key: k, Error: merrors.ItemNotFound}
		}
		ttl := e.TTL
		if ttl >= 0 {
			ttl -= int64(time.Since(e.At) / time.Second)
		}
		return &server.Response{Key: k, Value: e.Value, Flags: hx.U32(e.Flags), Cas: int64(e.Cas), TTL: ttl}
	}
	a := hx.Answer{Loose: true}
	if w.Op == server.OpcodeGet {
		seen := map[string]bool{}
		for _, k := range w.Keys {
			if !seen[k] {
				a.Res = append(a.Res, hit(k))
			}
			seen[k] = true
		}
		return a
	}
	exp := int(int32(w.Exp))
	o := hx.Op{Kind: "set", Key: w.Keys[0], Value: w.Value, Flags: hx.U32(w.Flags), Exp: exp, Cas: w.Cas}
	r := &server.Response{}
	if w.HasCas && w.Cas == 0 { // which no item has
		r.Error = merrors.ItemNotFound
		if m.M[w.Keys[0]] != nil {
			r.Error = merrors.ItemExists
		}
		return hx.Answer{Loose: true, Res: []*server.Response{r}}
	}
	e := m.Step(w.Proto, o)
	if len(e.Kinds) > 0 {
		switch e.Kinds[0] {
		case hx.NotFound:
			r.Error = merrors.ItemNotFound
		case hx.Exists:
			r.Error = merrors.ItemExists
		}
	}
	a.Res = append(a.Res, r)
	return a
}

// C24: what travels on the wire is what memcached would send.
func TestC24_Wire(t *testing.T) {
	hx.Check(t, 500, 16000, func(t *rapid.T) {
		r := newRouted(t)
		defer r.close()
		keys := hx.Keys(1, 4).Draw(t, "keys")
		plantAnything(t, r.sec, keys)
		plantAnything(t, r.prim, keys)
		m := hx.NewModel()
		var tokens []uint64
		learn := func() string {
			for _, k := range keys {
				s := r.primary(k).insp().Get(k)
				if msg := m.CheckState(k, s); msg != "" {
					return msg
				}
				if s.Exists {
					tokens = append(tokens, s.Cas)
				}
			}
			return ""
		}
		for _, k := range keys {
			m.Unsure[k] = true
		}
		learn()
		cmds := []string{"get", "gets", "set", "cas", "mg", "ms"}
		if rapid.Bool().Draw(t, "binary") {
			cmds = []string{"b:get", "b:getkq", "b:set", "b:set"}
		}
		conn, err := net.Dial("unix", r.addr)
		if err != nil {
			hx.Infra("dial: %v", err)
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(hx.CallLimit()))
		br := bufio.NewReader(conn)
		cut := reqSizes().Draw(t, "segments")
		var desc, labels []string
		stored := map[string]bool{}
		for b := rapid.IntRange(1, 3).Draw(t, "batches"); b > 0; b-- {
			var reqs []hx.WireReq
			for i := rapid.SampledFrom([]int{1, 1, 2, 5, 9}).Draw(t, "n"); i > 0; i-- {
				w := routedReq(t, keys, tokens, cmds)
				reqs = append(reqs, w)
				labels = append(labels, w.Cmd)
			}
			// A quiet get that misses has no answer.
			last := hx.ReqGen{Cmds: []string{cmds[0]}, Key: rapid.SampledFrom(keys)}.Draw(t)
			reqs = append(reqs, last)
			desc = append(desc, streamString(reqs))
			go func() {
				for _, s := range hx.Cut(streamBytes(reqs), cut) {
					conn.Write(s)
				}
			}()
			for i, w := range reqs {
				a := modelAnswer(m, w)
				var msg string
				if h := hx.Try(func() { msg = w.CheckAnswer(br, a) }); h != "" {
					msg = h
				}
				if msg != "" {
					t.Fatalf("%d+%d %v %s: request %d of the last batch: %s", len(r.prim), len(r.sec), cut, strings.Join(desc, " | "), i+1, msg)
				}
				if w.Op == server.OpcodeSet && a.Res[0].Error == nil {
					stored[w.Keys[0]] = true
				}
			}
			if msg := learn(); msg != "" {
				t.Fatalf("%d+%d %v %s: primary: %s", len(r.prim), len(r.sec), cut, strings.Join(desc, " | "), msg)
			}
			for k := range stored {
				if ps, ss := r.primary(k).insp().Get(k), r.secondary(k).insp().Get(k); !sameState(ps, ss) {
					t.Fatalf("%d+%d %v %s: %q: primary %v, secondary %v", len(r.prim), len(r.sec), cut, strings.Join(desc, " | "), k, ps, ss)
				}
			}
		}
		if br.Buffered() > 0 {
			rest, _ := br.Peek(br.Buffered())
			t.Fatalf("%s: surplus answer %q", strings.Join(desc, " | "), rest)
		}
		hx.Case(fmt.Sprintf("wire %d+%d %v %s", len(r.prim), len(r.sec), cut, strings.Join(desc, " | ")), len(labels) > 1 && len(stored) > 0, labels...)
	})
}

// foreign is a request that memcached knows and the server does not.
func foreign(t *rapid.T, keys []string, binary bool) hx.WireReq {
	k := rapid.SampledFrom(keys).Draw(t, "fkey")
	if binary {
		code := rapid.SampledFrom([]byte{0x07, 0x09, 0x0c, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x18, 0x19, 0x1a, 0x1d, 0x1e}).Draw(t, "opcode")
		var extras, value []byte
		switch code {
		case 0x0e, 0x0f, 0x19, 0x1a:
			value = []byte("7")
		case 0x11, 0x12, 0x13:
			extras, value = make([]byte, 8), []byte("7")
		case 0x15, 0x16:
			extras = make([]byte, 20)
		case 0x1d, 0x1e:
			extras = hx.U32(77)
		case 0x07, 0x10, 0x18:
			k = ""
		}
		return hx.WireReq{Proto: hx.Binary, Cmd: fmt.Sprintf("b:%#x", code), Opcode: code, Raw: hx.BinReq(code, 5, 0, extras, k, value)}
	}
	l := rapid.SampledFrom([]string{"append %s 0 0 1\r\n7\r\n", "prepend %s 0 0 1\r\n7\r\n", "ma %s\r\n", "ma %s N0 D3 v\r\n", "me %s\r\n", "gat 77 %s\r\n", "gats 77 %s\r\n",
		"ms %s 1 ME\r\n7\r\n", "ms %s 1 MA\r\n7\r\n", "ms %s 1 MP\r\n7\r\n", "ms %s 1 MR\r\n7\r\n", "ms %s 1 E77\r\n7\r\n", "ms %s 1 F3 T0 E1\r\n7\r\n", "mg %s N77 v\r\n", "mg %s T77\r\n",
		"md %s q\r\n", "md %s I\r\n", "md %s C1\r\n", "mn\r\n", "stats\r\n", "quit\r\n", "verbosity 1\r\n", "flush_all 0\r\n", "flush_all noreply\r\n"}).Draw(t, "line")
	if strings.Contains(l, "%s") {
		l = fmt.Sprintf(l, k)
	}
	return hx.WireReq{Proto: hx.Text, Cmd: strings.Fields(l)[0] + " (foreign)", Raw: []byte(l)}
}

// C24: a request that the router does not support.
func TestC24_Unsupported(t *testing.T) {
	ascii := []string{"add", "replace", "delete", "incr", "decr", "touch", "flush_all", "version", "md"}
	bin := []string{"b:add", "b:replace", "b:delete", "b:incr", "b:decr", "b:touch", "b:flush", "b:noop", "b:version"}
	hx.Check(t, 350, 12000, func(t *rapid.T) {
		r := newRouted(t)
		defer r.close()
		keys := hx.Keys(1, 3).Draw(t, "keys")
		plantAnything(t, r.sec, keys)
		plantAnything(t, r.prim, keys)
		for _, n := range r.all() {
			for _, k := range keys {
				if rapid.IntRange(0, 3).Draw(t, "number") == 0 {
					n.insp().Set(k, []byte("41"), 0, 0)
				}
			}
		}
		other := hx.MustDial(hx.Text, "other", "unix", r.addr)
		defer closeQuiet(other)
		binary := rapid.Bool().Draw(t, "binary")
		un, su := ascii, []string{"get", "mg"}
		if binary {
			un, su = bin, []string{"b:get"}
		}
		g := hx.ReqGen{Key: rapid.SampledFrom(keys), Value: hx.SmallValue()}
		var reqs []hx.WireReq
		g.Cmds = su
		for i := rapid.IntRange(0, 2).Draw(t, "before"); i > 0; i-- {
			reqs = append(reqs, g.Draw(t))
		}
		nb := len(reqs)
		g.Cmds = un
		bad := g.Draw(t)
		if rapid.IntRange(0, 2).Draw(t, "foreign") == 0 {
			bad = foreign(t, keys, binary)
		}
		reqs = append(reqs, bad)
		g.Cmds = []string{"set", "ms"}
		if binary {
			g.Cmds = []string{"b:set"}
		}
		for i := rapid.IntRange(0, 2).Draw(t, "after"); i > 0; i-- {
			reqs = append(reqs, g.Draw(t))
		}
		before := snap(r.all(), keys)
		m := hx.NewModel()
		for _, k := range keys {
			m.Unsure[k] = true
			m.CheckState(k, before[r.primary(k)][k])
		}
		desc := fmt.Sprintf("%d+%d %s", len(r.prim), len(r.sec), streamString(reqs))
		conn, err := net.Dial("unix", r.addr)
		if err != nil {
			hx.Infra("dial: %v", err)
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(hx.CallLimit()))
		conn.Write(streamBytes(reqs))
		br := bufio.NewReader(conn)
		for _, w := range reqs[:nb] {
			if msg := w.CheckAnswer(br, modelAnswer(m, w)); msg != "" {
				t.Fatalf("%s: %s", desc, msg)
			}
		}
		rest, err := io.ReadAll(br)
		if e, ok := err.(net.Error); ok && e.Timeout() {
			t.Fatalf("%s: the connection is still open; it carried %q", desc, rest)
		}
		switch {
		case len(rest) == 0:
		case !binary && (bytes.HasPrefix(rest, []byte("ERROR")) || bytes.HasPrefix(rest, []byte("SERVER_ERROR")) || bytes.HasPrefix(rest, []byte("CLIENT_ERROR"))) && bytes.Count(rest, []byte("\n")) == 1:
		case binary && len(rest) >= 24 && rest[0] == 0x81 && rest[1] == bad.Opcode && (rest[6] != 0 || rest[7] != 0):
		default:
			t.Fatalf("%s: answered with %q", desc, rest)
		}
		if msg := before.changed(nil, ""); msg != "" {
			t.Fatalf("%s: %s", desc, msg)
		}
		o := hx.Op{Kind: "get", Key: keys[0]}
		exp := m.Step(hx.Text, o)
		if msg := m.CheckResult(hx.Text, o, exp, hx.Run(t, other, o)); msg != "" {
			t.Fatalf("%s: another connection afterwards: %s", desc, msg)
		}
		hx.Case(desc, true, "unsupported: "+bad.Cmd)
	})
}

// C24: what is reported as stored is stored on both, and what is read is what
// is stored, even when a backend fails.
func TestC24_Faults(t *testing.T) {
	hx.Check(t, 350, 12000, func(t *rapid.T) {
		r := newRouted(t)
		defer r.close()
		keys := hx.Keys(1, 3).Draw(t, "keys")
		plantAnything(t, r.prim, keys)
		desc := fmt.Sprintf("%d+%d", len(r.prim), len(r.sec))
		m := hx.NewModel()
		failed := 0
		for i := rapid.IntRange(1, 6).Draw(t, "length"); i > 0; i-- {
			for _, k := range keys {
				m.Unsure[k] = true
				m.CheckState(k, r.primary(k).insp().Get(k))
			}
			proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
			o := histCfg{kinds: routedKinds[proto], keys: keys, exps: hx.LongTTL(), values: histValue()}.drawOp(t, nil)
			n := r.all()[rapid.IntRange(0, len(r.all())-1).Draw(t, "which")]
			f := hx.Fault{Kind: hx.FaultCut, Request: rapid.Bool().Draw(t, "request"), After: rapid.IntRange(0, 60).Draw(t, "after")}
			down := rapid.IntRange(0, 2).Draw(t, "down") == 0
			if down {
				n.relay.Down()
				desc += fmt.Sprintf("; %s down", n.name)
			} else {
				n.relay.Arm(f)
				desc += fmt.Sprintf("; %s cut %+v", n.name, f)
			}
			c := hx.MustDial(proto, "router", "unix", r.addr)
			exp := m.Step(proto, o)
			res := hx.Run(t, c, o)
			closeQuiet(c)
			desc += fmt.Sprintf("; %s %s -> %v", proto, o, res)
			if res.Kind == hx.Other {
				failed++
			} else if msg := m.CheckResult(proto, o, exp, res); msg != "" {
				t.Fatalf("%s: %s", desc, msg)
			}
			n.relay.Arm(hx.Fault{})
			n.relay.Up()
			if err := n.c.Reconnect(); err != nil {
				t.Fatalf("%s: Reconnect: %v", desc, err)
			}
			if o.Kind == "set" && res.Err == nil {
				p, s := r.primary(o.Key), r.secondary(o.Key)
				if msg := m.CheckState(o.Key, p.insp().Get(o.Key)); msg != "" {
					t.Fatalf("%s: %s", desc, msg)
				}
				if ps, ss := p.insp().Get(o.Key), s.insp().Get(o.Key); !sameState(ps, ss) {
					t.Fatalf("%s: primary %v, secondary %v", desc, ps, ss)
				}
			}
		}
		hx.Case("backend faults "+desc, failed > 0, "backend faults")
	})
}

// C24: gets of many keys.
func TestC24_ManyKeys(t *testing.T) {
	hx.Check(t, 40, 1200, func(t *rapid.T) {
		r := newRouted(t)
		defer r.close()
		n := rapid.OneOf(rapid.SampledFrom([]int{1, 63, 64, 65, 128, 129, 192, 200}), rapid.IntRange(2, 400)).Draw(t, "keys")
		missing := rapid.SampledFrom([]int{1000, 1, 2, 3, 10}).Draw(t, "missing")
		size := rapid.SampledFrom([]int{0, 1, 20, 300, 3000}).Draw(t, "size")
		pad := strings.Repeat("_", rapid.SampledFrom([]int{0, 0, 10, 100, 245}).Draw(t, "pad"))
		if rapid.IntRange(0, 19).Draw(t, "more") == 0 {
			n, size = rapid.SampledFrom([]int{1000, 2500, 3900}).Draw(t, "keys"), 1
		}
		type item struct {
			value []byte
			flags uint32
		}
		var keys []string
		want := map[string]item{}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%d%s", i, pad)
			keys = append(keys, k)
			if r.secondary(k) != r.primary(k) && i%3 == 0 {
				r.secondary(k).insp().Set(k, []byte("not what the primary holds"), 9, 0)
			}
			if i%missing != missing-1 {
				want[k] = item{hx.Fill(size+i%7, byte(i)), uint32(i) << 20}
				r.primary(k).insp().Set(k, want[k].value, want[k].flags, 0)
			}
		}
		c := hx.MustDial(hx.Text, "router", "unix", r.addr)
		defer closeQuiet(c)
		rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
		var desc []int
		for i := 0; i < rounds; i++ {
			ask := rapid.Permutation(keys).Draw(t, "order")[:rapid.IntRange(1, n).Draw(t, "asked")]
			if i == 0 {
				ask = keys
			}
			desc = append(desc, len(ask))
			res := hx.Run(t, c, hx.Op{Kind: "getmulti", Keys: ask})
			if res.Err != nil {
				t.Fatalf("gets of %d of %d keys: %v", len(ask), n, res)
			}
			got := map[string]int{}
			for _, it := range res.Items {
				w, ok := want[it.Key]
				if !ok || !bytes.Equal(it.Value, w.value) || hx.FlagWord(it.Flags) != w.flags {
					t.Fatalf("gets of %d of %d keys: %q is %s with flags %x, want %s with %x", len(ask), n, it.Key, hx.Q(it.Value), it.Flags, hx.Q(w.value), w.flags)
				}
				got[it.Key]++
			}
			for _, k := range ask {
				if _, ok := want[k]; ok && got[k] != 1 {
					t.Fatalf("gets of %d of %d keys: %q came %d times", len(ask), n, k, got[k])
				}
				delete(got, k)
			}
			if len(got) > 0 {
				t.Fatalf("gets of %d of %d keys: also came %v", len(ask), n, got)
			}
			k := rapid.SampledFrom(keys).Draw(t, "single")
			w, ok := want[k]
			if g := hx.Run(t, c, hx.Op{Kind: "get", Key: k}); ok && (g.Err != nil || !bytes.Equal(g.Item.Value, w.value)) || !ok && g.Kind != hx.NotFound {
				t.Fatalf("get of %q after gets of %d keys: %v", k, len(ask), g)
			}
		}
		hx.Case(fmt.Sprintf("%d+%d: gets of %v of %d keys (padded by %d) of %d bytes, every %dth missing", len(r.prim), len(r.sec), desc, n, len(pad), size, missing), n > 64 && len(want) > 0, "many keys")
	})
}

// C24: the unsigned expirations of the binary protocol that the backends'
// protocol does not have are refused, or the item is there: it is not one that
// has expired at once, or expires soon.
func TestC24_FarExpirations(t *testing.T) {
	hx.Check(t, 100, 3000, func(t *rapid.T) {
		r := newRouted(t)
		defer r.close()
		n := rapid.IntRange(1, 4).Draw(t, "sets")
		desc := ""
		for i := 0; i < n; i++ {
			k := "k" + strconv.Itoa(i)
			old := rapid.Bool().Draw(t, "old")
			for _, nd := range []*node{r.primary(k), r.secondary(k)} {
				if old {
					nd.insp().Set(k, []byte("old"), 7, 0)
				}
			}
			exp := rapid.OneOf(
				rapid.SampledFrom([]uint32{math.MaxInt32 - 1, math.MaxInt32, 1 << 31, 1<<31 + 1, 1<<31 + 60, 4102444800, math.MaxUint32 - 1, math.MaxUint32}),
				rapid.Uint32Range(math.MaxInt32-1000, math.MaxUint32)).Draw(t, "exp")
			v := hx.SmallValue().Draw(t, "value")
			c, err := net.Dial("unix", r.addr)
			if err != nil {
				t.Fatal(err)
			}
			c.SetDeadline(time.Now().Add(30 * time.Second))
			c.Write(hx.BinReq(1, 5, 0, append(hx.U32(9), hx.U32(exp)...), k, v))
			b := make([]byte, 24)
			_, err = io.ReadFull(c, b)
			c.Close()
			if err != nil && os.IsTimeout(err) {
				t.Fatalf("set with the expiration %d: %v", exp, err)
			}
			stored := err == nil && binary.BigEndian.Uint16(b[6:]) == 0
			desc += fmt.Sprintf("; %d stored=%v", exp, stored)
			for what, nd := range map[string]*node{"primary": r.primary(k), "secondary": r.secondary(k)} {
				s := nd.insp().Get(k)
				switch {
				case stored:
					if !s.Exists || !bytes.Equal(s.Value, v) || s.Flags != 9 || s.TTL >= 0 && s.TTL < 86400 {
						t.Fatalf("set with the expiration %d, the year %d, was stored; the %s holds %+v", exp, time.Unix(int64(exp), 0).Year(), what, s)
					}
				case s.Exists != old || old && (string(s.Value) != "old" || s.TTL >= 0):
					t.Fatalf("set with the expiration %d was refused; the %s holds %+v", exp, what, s)
				}
			}
		}
		hx.Case(fmt.Sprintf("%d+%d%s", len(r.prim), len(r.sec), desc), true, "far expirations")
	})
}
