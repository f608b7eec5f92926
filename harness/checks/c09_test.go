package checks

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"go.f110.dev/go-memcached/client"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// kv is the state of one key in the linearizability model. cas is the token
// of the current version once a read has shown it.
type kv struct {
	exists bool
	value  string // without the padding that decr leaves
	flags  uint32
	cas    uint64
}

type linIn struct {
	op      hx.Op
	proto   string
	replica bool
}

type linOut struct {
	kind  string
	found bool
	value string
	flags uint32
	cas   uint64
	n     int64
}

func linStep(state, input, output interface{}) (bool, interface{}) {
	s, in, out := state.(kv), input.(linIn), output.(linOut)
	o := in.op
	stored := kv{exists: true, value: strings.TrimRight(string(o.Value), " "), flags: hx.FlagWord(o.Flags)}
	switch o.Kind {
	case "get":
		if !s.exists {
			return !out.found && (out.kind == hx.NotFound || out.kind == hx.OK), s
		}
		if !out.found || out.value != s.value || out.flags != s.flags || out.cas == 0 || s.cas != 0 && s.cas != out.cas {
			return false, s
		}
		s.cas = out.cas
		return true, s
	case "set":
		if o.Cas != 0 {
			switch {
			case !s.exists:
				return out.kind == hx.NotFound || out.kind == hx.Other, s
			case s.cas != o.Cas:
				// A token is always one that a read before has shown, so an
				// unseen version has another.
				return out.kind == hx.Exists, s
			}
		}
		return out.kind == hx.OK, stored
	case "add":
		if s.exists {
			return out.kind == hx.Exists, s
		}
		return out.kind == hx.OK, stored
	case "replace":
		if !s.exists {
			return out.kind == hx.NotFound, s
		}
		return out.kind == hx.OK, stored
	case "delete":
		if !s.exists {
			return out.kind == hx.NotFound || in.proto == hx.Meta && out.kind == hx.OK, s
		}
		return out.kind == hx.OK, kv{}
	case "touch":
		if !s.exists {
			return out.kind == hx.NotFound || out.kind == hx.Other, s
		}
		return out.kind == hx.OK, s
	case "incr", "decr":
		if !s.exists {
			if in.proto == hx.Binary {
				return out.kind == hx.OK && out.n == 1, kv{exists: true, value: "1"}
			}
			return out.kind == hx.NotFound, s
		}
		n, err := strconv.ParseInt(s.value, 10, 64)
		if err != nil {
			return out.kind == hx.Other, s
		}
		if o.Kind == "incr" {
			n += int64(o.Delta)
		} else if n -= int64(o.Delta); n < 0 {
			n = 0
		}
		next := kv{exists: true, value: strconv.FormatInt(n, 10), flags: s.flags}
		if in.replica && out.kind == hx.NotFound {
			// Deleted by another goroutine before it was copied.
			return true, next
		}
		return out.kind == hx.OK && out.n == n, next
	}
	panic(o.Kind)
}

var linModel = porcupine.Model{
	Init: func() interface{} { return kv{} },
	Step: linStep,
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(linIn).op.Key
			m[k] = append(m[k], o)
		}
		var out [][]porcupine.Operation
		for _, v := range m {
			out = append(out, v)
		}
		return out
	},
	Equal: func(a, b interface{}) bool { return a.(kv) == b.(kv) },
}

func linOutOf(it *client.Item) linOut {
	return linOut{kind: hx.OK, found: true, value: strings.TrimRight(string(it.Value), " "), flags: hx.FlagWord(it.Flags), cas: it.Cas}
}

// goroutine is one caller with its script and its part of the history.
type goroutine struct {
	ops     []hx.Op
	useCas  []bool // whether a set carries the token seen last
	api     hx.API
	protoOf func(key string) string
	replica bool
	hist    []porcupine.Operation
	bad     string
}

func (g *goroutine) run(id int, start time.Time, version string) {
	tokens := map[string]uint64{}
	for i, o := range g.ops {
		if g.useCas[i] && o.Kind == "set" {
			o.Cas = tokens[o.Key]
		}
		call := int64(time.Since(start))
		r := hx.Do(g.api, o)
		ret := int64(time.Since(start))
		switch o.Kind {
		case "version":
			if r.Err != nil || !strings.Contains(r.Version, version) {
				g.bad = fmt.Sprintf("version -> %v, want %s", r, version)
				return
			}
			continue
		case "getmulti":
			if r.Err != nil {
				g.bad = fmt.Sprintf("%s -> %v", o, r)
				return
			}
			got := map[string]linOut{}
			for _, it := range r.Items {
				got[it.Key] = linOutOf(it)
				tokens[it.Key] = it.Cas
			}
			seen := map[string]bool{}
			for _, k := range o.Keys {
				if seen[k] {
					continue
				}
				seen[k] = true
				out, ok := got[k]
				if !ok {
					out = linOut{kind: hx.NotFound}
				}
				delete(got, k)
				g.hist = append(g.hist, porcupine.Operation{ClientId: id, Input: linIn{op: hx.Op{Kind: "get", Key: k}, proto: g.protoOf(k), replica: g.replica}, Call: call, Output: out, Return: ret})
			}
			if len(got) > 0 {
				g.bad = fmt.Sprintf("%s -> %v: items that were not asked for", o, r)
				return
			}
			continue
		}
		out := linOut{kind: r.Kind, n: r.N}
		if o.Kind == "get" && r.Err == nil {
			if r.Item.Key != o.Key {
				g.bad = fmt.Sprintf("%s -> %v", o, r)
				return
			}
			out = linOutOf(r.Item)
			tokens[o.Key] = r.Item.Cas
		}
		if r.Kind == hx.Other && (o.Kind == "get" || o.Kind == "add" || o.Kind == "replace" || o.Kind == "delete") {
			g.bad = fmt.Sprintf("%s -> %v", o, r)
			return
		}
		g.hist = append(g.hist, porcupine.Operation{ClientId: id, Input: linIn{op: o, proto: g.protoOf(o.Key), replica: g.replica}, Call: call, Output: out, Return: ret})
	}
}

func describe(h []porcupine.Operation) string {
	sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
	var b bytes.Buffer
	for _, o := range h {
		in, out := o.Input.(linIn), o.Output.(linOut)
		fmt.Fprintf(&b, "  [%d..%d] goroutine %d %s %s", o.Call, o.Return, o.ClientId, in.proto, in.op)
		fmt.Fprintf(&b, " -> %s", out.kind)
		if out.found {
			fmt.Fprintf(&b, " %s f=%d cas=%d", hx.Q([]byte(out.value)), out.flags, out.cas)
		}
		fmt.Fprintf(&b, " n=%d\n", out.n)
	}
	return b.String()
}

// checkLin decides the history, key by key.
func checkLin(t *rapid.T, what string, h []porcupine.Operation) {
	for _, part := range linModel.Partition(h) {
		m := linModel
		m.Partition = nil
		switch porcupine.CheckOperationsTimeout(m, part, 20*time.Second) {
		case porcupine.Illegal:
			t.Fatalf("%s: history of key %q is not linearizable:\n%s", what, part[0].Input.(linIn).op.Key, describe(part))
		case porcupine.Unknown:
			hx.Count("linearizability undecided in time", 1)
		}
	}
}

// overlapping counts operations that ran while another was running.
func overlapping(h []porcupine.Operation) (n int) {
	sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
	var end int64
	for i, o := range h {
		if i > 0 && o.Call < end && h[i-1].ClientId != o.ClientId {
			n++
		}
		if o.Return > end {
			end = o.Return
		}
	}
	return n
}

func drawScripts(t *rapid.T, keys []string, kinds []string, n, max int) []*goroutine {
	var out []*goroutine
	for g := 0; g < n; g++ {
		x := &goroutine{}
		m := rapid.IntRange(1, max).Draw(t, "ops")
		for i := 0; i < m; i++ {
			o := hx.Op{Kind: rapid.SampledFrom(kinds).Draw(t, "op")}
			switch o.Kind {
			case "version":
			case "getmulti":
				for j := rapid.IntRange(1, 4).Draw(t, "n"); j > 0; j-- {
					o.Keys = append(o.Keys, rapid.SampledFrom(keys).Draw(t, "key"))
				}
			default:
				o.Key = rapid.SampledFrom(keys).Draw(t, "key")
			}
			switch o.Kind {
			case "set", "add", "replace":
				o.Value = []byte(strconv.Itoa(100000 + g*1000 + i*10))
				if rapid.IntRange(0, 2).Draw(t, "text") == 0 {
					o.Value = append([]byte(fmt.Sprintf("v%d.%d.", g, i)), bytes.Repeat([]byte{byte('a' + g)}, rapid.SampledFrom([]int{0, 10, 3000, 5000}).Draw(t, "pad"))...)
				}
				o.Flags = hx.U32(uint32(g*1000 + i))
			case "incr", "decr":
				o.Delta = rapid.IntRange(1, 9).Draw(t, "delta")
			case "touch":
				o.Exp = 5000
			}
			x.ops = append(x.ops, o)
			x.useCas = append(x.useCas, rapid.Bool().Draw(t, "usecas"))
		}
		out = append(out, x)
	}
	return out
}

// runAll runs the goroutines together with the extra functions.
func runAll(t *rapid.T, gs []*goroutine, version string, extra ...func()) []porcupine.Operation {
	var wg sync.WaitGroup
	gate := make(chan struct{})
	start := time.Now()
	for i, g := range gs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			g.run(i, start, version)
		}()
	}
	for _, f := range extra {
		wg.Add(1)
		go func() { defer wg.Done(); <-gate; f() }()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	close(gate)
	select {
	case <-done:
	case <-time.After(hx.CallLimit()):
		buf := make([]byte, 1<<20)
		os.Stderr.Write(buf[:runtime.Stack(buf, true)])
		t.Fatalf("HANG: goroutines did not finish")
	}
	var h []porcupine.Operation
	for i, g := range gs {
		if g.bad != "" {
			t.Fatalf("goroutine %d: %s", i, g.bad)
		}
		h = append(h, g.hist...)
	}
	return h
}

// finals appends what is stored at the end to the history.
func finals(h []porcupine.Operation, keys []string, get func(string) hx.State, protoOf func(string) string) []porcupine.Operation {
	end := int64(1) << 60
	for _, k := range keys {
		s := get(k)
		out := linOut{kind: hx.NotFound}
		if s.Exists {
			out = linOut{kind: hx.OK, found: true, value: strings.TrimRight(string(s.Value), " "), flags: s.Flags, cas: s.Cas}
		}
		h = append(h, porcupine.Operation{ClientId: 99, Input: linIn{op: hx.Op{Kind: "get", Key: k}, proto: protoOf(k)}, Call: end, Output: out, Return: end + 1})
		end += 2
	}
	return h
}

var c09Kinds = []string{"get", "get", "getmulti", "set", "set", "add", "replace", "delete", "touch", "incr", "incr", "decr", "version"}

// reconnector calls Reconnect n times, spread over the run.
func reconnector(c client.Server, n int, gap time.Duration, bad *string) func() {
	return func() {
		for i := 0; i < n; i++ {
			time.Sleep(gap)
			if err := c.Reconnect(); err != nil {
				*bad = fmt.Sprintf("concurrent Reconnect: %v", err)
				return
			}
		}
	}
}

// C09: goroutines sharing one client, with or without Reconnect.
func TestC09_Client(t *testing.T) {
	hx.Check(t, 320, 9000, func(t *rapid.T) {
		proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		r := newRig(rapid.SampledFrom([][]int{nil, nil, {1, 7, 30}, {3}, {24, 1}}).Draw(t, "segments"), proto)
		defer r.close()
		keys := []string{"ka", "kb", "kc"}[:rapid.IntRange(1, 3).Draw(t, "keys")]
		gs := drawScripts(t, keys, c09Kinds, rapid.IntRange(2, 8).Draw(t, "goroutines"), 12)
		for _, g := range gs {
			g.api, g.protoOf = r.c[proto], func(string) string { return proto }
		}
		version := strings.TrimPrefix(r.mc.Inspect().Raw("version"), "VERSION ")
		var extra []func()
		bad := ""
		rec := rapid.IntRange(0, 3).Draw(t, "reconnects")
		if rec > 0 {
			extra = append(extra, reconnector(r.c[proto], rec, time.Duration(rapid.SampledFrom([]int{0, 50, 200, 500}).Draw(t, "gap"))*time.Microsecond, &bad))
		}
		h := runAll(t, gs, version, extra...)
		if bad != "" {
			t.Fatalf("%s", bad)
		}
		ov := overlapping(h)
		h = finals(h, keys, r.mc.Inspect().Get, func(string) string { return proto })
		checkLin(t, proto+" client", h)
		hx.Count("operations", len(h))
		hx.Count("operations overlapping another", ov)
		hx.Case(proto+" "+describe(h), ov > 0, "client:"+proto, fmt.Sprintf("goroutines: %d", len(gs)), fmt.Sprintf("reconnects: %d", rec))
	})
}

// C09: goroutines sharing a single pool.
func TestC09_SinglePool(t *testing.T) {
	hx.Check(t, 180, 5000, func(t *rapid.T) {
		n := rapid.IntRange(1, 3).Draw(t, "servers")
		var protos []string
		for i := 0; i < n; i++ {
			protos = append(protos, rapid.SampledFrom(hx.Protocols).Draw(t, "proto"))
		}
		names := []string{"one", "two", "three"}[:n]
		s := newSingle(names, protos)
		defer s.close()
		protoOf := func(k string) string {
			for i, x := range s.nodes {
				if x == s.owner(k) {
					return protos[i]
				}
			}
			return ""
		}
		keys := []string{"a", "b", "c", "d", "e", "f"}[:rapid.IntRange(2, 6).Draw(t, "keys")]
		gs := drawScripts(t, keys, c09Kinds, rapid.IntRange(2, 8).Draw(t, "goroutines"), 10)
		for _, g := range gs {
			g.api, g.protoOf = s.pool, protoOf
		}
		version := strings.TrimPrefix(s.nodes[0].insp().Raw("version"), "VERSION ")
		var extra []func()
		bad := make([]string, n)
		for i, x := range s.nodes {
			if rapid.IntRange(0, 2).Draw(t, "reconnect") == 0 {
				extra = append(extra, reconnector(x.c, 2, 100*time.Microsecond, &bad[i]))
			}
		}
		h := runAll(t, gs, version, extra...)
		if b := strings.Join(bad, ""); b != "" {
			t.Fatalf("%s", b)
		}
		ov := overlapping(h)
		h = finals(h, keys, func(k string) hx.State { return s.owner(k).insp().Get(k) }, protoOf)
		checkLin(t, "single pool", h)
		hx.Count("operations", len(h))
		hx.Count("operations overlapping another", ov)
		hx.Case("single pool "+describe(h), ov > 0, "single pool", fmt.Sprintf("goroutines: %d", len(gs)))
	})
}

// C09: goroutines sharing a replica pool.
func TestC09_ReplicaPool(t *testing.T) {
	kinds := []string{"get", "get", "getmulti", "set", "set", "add", "replace", "delete", "incr", "incr", "decr"}
	hx.Check(t, 180, 5000, func(t *rapid.T) {
		r := newReplica(rapid.IntRange(1, 2).Draw(t, "primaries"), rapid.IntRange(1, 2).Draw(t, "secondaries"))
		defer r.close()
		shared := []string{"a", "b", "c"}[:rapid.IntRange(1, 3).Draw(t, "keys")]
		n := rapid.IntRange(2, 8).Draw(t, "goroutines")
		all := append([]string{}, shared...)
		var gs []*goroutine
		for i := 0; i < n; i++ {
			own := fmt.Sprintf("own%d", i)
			all = append(all, own)
			g := drawScripts(t, append([]string{own}, shared...), kinds, 1, 10)[0]
			// distinct values per goroutine
			for j := range g.ops {
				if g.ops[j].Flags != nil {
					g.ops[j].Flags = hx.U32(uint32(i*1000 + j))
					if g.ops[j].Value[0] == 'v' {
						g.ops[j].Value = append([]byte(fmt.Sprintf("g%d-", i)), g.ops[j].Value...)
					} else {
						g.ops[j].Value = []byte(strconv.Itoa(100000 + i*1000 + j*10))
					}
				}
			}
			g.api, g.protoOf, g.replica = r.pool, func(string) string { return hx.Meta }, true
			gs = append(gs, g)
		}
		h := runAll(t, gs, "")
		ov := overlapping(h)
		h = finals(h, all, func(k string) hx.State { return r.primary(k).insp().Get(k) }, func(string) string { return hx.Meta })
		checkLin(t, "replica pool", h)
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("own%d", i)
			p, s := r.primary(k).insp().Get(k), r.secondary(k).insp().Get(k)
			if p.Exists != s.Exists || !bytes.Equal(bytes.TrimRight(p.Value, " "), bytes.TrimRight(s.Value, " ")) || p.Flags != s.Flags {
				t.Fatalf("key %q, written by one goroutine only: primary %v, secondary %v", k, p, s)
			}
		}
		hx.Count("operations", len(h))
		hx.Count("operations overlapping another", ov)
		hx.Case("replica pool "+describe(h), ov > 0, "replica pool", fmt.Sprintf("goroutines: %d", n))
	})
}
