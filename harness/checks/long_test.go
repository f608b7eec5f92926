package checks

import (
	"fmt"
	"math/rand"
	"strconv"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// longOp makes an operation for a long history. Its choices come from a seeded
// source, so that a case of thousands of operations has two draws, the seed
// and the length, and shrinks by its length.
func longOp(r *rand.Rand, kinds, keys []string, m *hx.Model, stale uint64) hx.Op {
	o := hx.Op{Kind: kinds[r.Intn(len(kinds))]}
	switch o.Kind {
	case "flush", "version":
		return o
	case "getmulti":
		for i := 1 + r.Intn(8); i > 0; i-- {
			o.Keys = append(o.Keys, keys[r.Intn(len(keys))])
		}
		return o
	}
	o.Key = keys[r.Intn(len(keys))]
	exp := []int{0, 0, 0, 5000, 2592000, 2147483647}
	switch o.Kind {
	case "set", "add", "replace":
		switch r.Intn(8) {
		case 0:
			o.Value = hx.Fill(r.Intn(300), byte(r.Int()))
		case 1:
			o.Value = hx.Fill([]int{4000, 4090, 4096, 8192, 20000}[r.Intn(5)]+r.Intn(10), byte(r.Int()))
		case 2:
			o.Value = []byte{}
		default:
			o.Value = []byte(strconv.FormatUint(r.Uint64()>>(uint(r.Intn(63))+1), 10))
		}
		o.Flags, o.Exp = hx.U32(r.Uint32()>>uint(r.Intn(32))), exp[r.Intn(len(exp))]
		if o.Kind == "set" && r.Intn(3) == 0 {
			if e := m.M[o.Key]; e != nil && r.Intn(2) == 0 {
				o.Cas = e.Cas
			} else {
				o.Cas = stale
			}
		}
	case "touch":
		o.Exp = exp[r.Intn(len(exp))]
	case "incr", "decr":
		o.Delta, o.Exp = r.Intn(1<<uint(1+r.Intn(40))), exp[r.Intn(len(exp))]
	}
	return o
}

// long runs a long history. next picks who does an operation; state looks at
// the server; after checks more.
func long(t *rapid.T, what string, keys []string, kinds func(proto string) []string, next func(r *rand.Rand) (proto string, api hx.API), state func(string) hx.State, after func(o hx.Op, res hx.Result) string, ownerProto func(key string) string) {
	seed := rapid.Int64Range(0, 1<<40).Draw(t, "seed")
	n := rapid.IntRange(1, rapid.SampledFrom([]int{300, 700, 1500, 3000}).Draw(t, "max")).Draw(t, "length")
	r := rand.New(rand.NewSource(seed))
	m := hx.NewModel()
	for _, k := range keys {
		m.Unsure[k] = true
		m.CheckState(k, state(k))
	}
	var last []string
	outs := map[string]int{}
	for i := 0; i < n; i++ {
		proto, api := next(r)
		o := longOp(r, kinds(proto), keys, m, 1+r.Uint64()>>1)
		if ownerProto != nil {
			proto = ""
			if o.Key != "" {
				proto = ownerProto(o.Key)
			}
		}
		exp := m.Step(proto, o)
		res := hx.Run(t, api, o)
		if last = append(last, fmt.Sprintf("%s.%s -> %v", proto, o, res)); len(last) > 6 {
			last = last[1:]
		}
		fail := func(format string, args ...interface{}) {
			t.Fatalf("%s, step %d of a long history: %s\nthe last operations: %q", what, i, fmt.Sprintf(format, args...), last)
		}
		if msg := m.CheckResult(proto, o, exp, res); msg != "" {
			fail("%s", msg)
		}
		outs[o.Kind+":"+res.Kind]++
		for j, k := range keys {
			if k == o.Key || o.Kind == "flush" || i%len(keys) == j || i == n-1 {
				if msg := m.CheckState(k, state(k)); msg != "" {
					fail("%s", msg)
				}
			}
		}
		if after != nil {
			if msg := after(o, res); msg != "" {
				fail("%s", msg)
			}
		}
	}
	hx.Count("operations in long histories", n)
	hx.Case(fmt.Sprintf("long %s seed %d length %d: %v", what, seed, n, outs), n > 100, "long: "+what)
}

func always(kinds []string) func(string) []string { return func(string) []string { return kinds } }

var longKinds = []string{"get", "get", "get", "getmulti", "getmulti", "set", "set", "set", "add", "replace", "delete", "touch", "incr", "incr", "decr", "version", "get", "set"}

func longKeys(t *rapid.T) []string { return hx.Keys(1, 8).Draw(t, "keys") }

// C02: thousands of operations on the same connections.
func TestC02_Long(t *testing.T) {
	hx.Check(t, 5, 150, func(t *rapid.T) {
		protos := rapid.SampledFrom([][]string{hx.Protocols, {hx.Text}, {hx.Meta}, {hx.Binary}}).Draw(t, "protos")
		r := newRig(nil, protos...)
		defer r.close()
		kinds := longKinds
		if rapid.Bool().Draw(t, "flush") {
			kinds = append([]string{"flush"}, kinds...)
		}
		long(t, fmt.Sprint(protos), longKeys(t), always(kinds), func(x *rand.Rand) (string, hx.API) {
			p := protos[x.Intn(len(protos))]
			return p, r.c[p]
		}, r.mc.Inspect().Get, nil, nil)
	})
}

// C18: thousands of operations on a pool.
func TestC18_Long(t *testing.T) {
	hx.Check(t, 4, 120, func(t *rapid.T) {
		s, protos := drawSingle(t)
		defer s.close()
		long(t, fmt.Sprintf("single pool %v", protos), longKeys(t), always(longKinds), func(*rand.Rand) (string, hx.API) { return "", s.pool },
			func(k string) hx.State { return s.owner(k).insp().Get(k) }, nil, func(k string) string { return s.owner(k).proto })
	})
}

// C19: thousands of operations on a replica pool.
func TestC19_Long(t *testing.T) {
	kinds := append([]string{}, replicaKinds...)
	hx.Check(t, 4, 120, func(t *rapid.T) {
		r := drawReplica(t)
		defer r.close()
		long(t, "replica pool", longKeys(t), always(kinds), func(*rand.Rand) (string, hx.API) { return hx.Meta, r.pool },
			func(k string) hx.State { return r.primary(k).insp().Get(k) }, func(o hx.Op, res hx.Result) string {
				if o.Kind == "get" || o.Kind == "getmulti" || res.Err != nil {
					return ""
				}
				if p, s := r.primary(o.Key).insp().Get(o.Key), r.secondary(o.Key).insp().Get(o.Key); !sameState(p, s) {
					return fmt.Sprintf("primary holds %v but secondary holds %v", p, s)
				}
				return ""
			}, nil)
	})
}

// C22: thousands of requests on the same connections to a server.
func TestC22_Long(t *testing.T) {
	hx.Check(t, 4, 120, func(t *rapid.T) {
		h := hx.NewMapHandler()
		addr, stop := serveUnix(h)
		defer stop()
		clients := map[string]hx.API{}
		for _, p := range hx.Protocols {
			c := hx.MustDial(p, "srv", "unix", addr)
			defer closeQuiet(c)
			clients[p] = c
		}
		long(t, "server", longKeys(t), func(p string) []string { return serverKinds[p] }, func(x *rand.Rand) (string, hx.API) {
			p := hx.Protocols[x.Intn(3)]
			return p, clients[p]
		}, h.State, nil, nil)
	})
}

// C24: thousands of requests on the same connections to the router.
func TestC24_Long(t *testing.T) {
	hx.Check(t, 4, 120, func(t *rapid.T) {
		r := newRouted(t)
		defer r.close()
		clients := map[string]hx.API{}
		for _, p := range hx.Protocols {
			c := hx.MustDial(p, "router", "unix", r.addr)
			defer closeQuiet(c)
			clients[p] = c
		}
		long(t, "router", longKeys(t), func(p string) []string { return routedKinds[p] }, func(x *rand.Rand) (string, hx.API) {
			p := hx.Protocols[x.Intn(3)]
			return p, clients[p]
		}, func(k string) hx.State { return r.primary(k).insp().Get(k) }, func(o hx.Op, res hx.Result) string {
			if o.Kind != "set" || res.Err != nil {
				return ""
			}
			if p, s := r.primary(o.Key).insp().Get(o.Key), r.secondary(o.Key).insp().Get(o.Key); !sameState(p, s) {
				return fmt.Sprintf("primary holds %v but secondary holds %v", p, s)
			}
			return ""
		}, nil)
	})
}

// C20: thousands of reads and refused writes while the secondaries hold
// something else.
func TestC20_Long(t *testing.T) {
	hx.Check(t, 4, 120, func(t *rapid.T) {
		r := drawReplica(t)
		defer r.close()
		keys := longKeys(t)
		kinds := []string{"get", "get", "get", "get", "get", "getmulti", "getmulti", "add", "replace", "set"}
		if rapid.Bool().Draw(t, "reads") {
			kinds = kinds[:7]
		}
		plantAnything(t, r.prim, keys)
		held := map[string]hx.State{}
		for i, k := range keys {
			in := r.secondary(k).insp()
			in.Set(k, hx.Fill(9+i, 77), 0xabcdef, 0)
			held[k] = in.Get(k)
		}
		long(t, "replica pool with other secondaries", keys, always(kinds), func(*rand.Rand) (string, hx.API) { return hx.Meta, r.pool },
			func(k string) hx.State { return r.primary(k).insp().Get(k) }, func(o hx.Op, res hx.Result) string {
				if o.Kind == "get" || o.Kind == "getmulti" {
					return ""
				}
				in := r.secondary(o.Key).insp()
				now, was := in.Get(o.Key), held[o.Key]
				if res.Err != nil {
					if !sameState(now, was) || now.Cas != was.Cas {
						return fmt.Sprintf("the write failed, but the secondary's item changed from %v to %v", was, now)
					}
					return ""
				}
				if p := r.primary(o.Key).insp().Get(o.Key); !sameState(p, now) {
					return fmt.Sprintf("primary holds %v but secondary holds %v", p, now)
				}
				in.Set(o.Key, hx.Fill(9, 78), 0xabcdef, 0)
				held[o.Key] = in.Get(o.Key)
				return ""
			}, nil)
	})
}
