package checks

import (
	"fmt"
	"testing"
	"time"

	"go.f110.dev/go-memcached/client"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// lateTimeout is the client's timeout in the cases where a reply comes late.
const lateTimeout = 25 * time.Millisecond

// faultRun is one client in front of a memcached, and what the model knows.
type faultRun struct {
	t     hx.TB
	r     *rig
	proto string
	c     client.Server
	m     *hx.Model
	keys  []string
	desc  []string
}

func (f *faultRun) fail(format string, args ...interface{}) {
	f.t.Helper()
	s := fmt.Sprintf(format, args...)
	h := ""
	for _, d := range f.desc {
		h += "\n  " + d
	}
	f.t.Fatalf("%s client: %s\nhistory:%s", f.proto, s, h)
}

func (f *faultRun) do(o hx.Op) hx.Result {
	f.t.Helper()
	var res hx.Result
	if msg := hx.Try(func() { res = hx.Do(f.c, o) }); msg != "" {
		f.fail("%s: %s", o, msg)
	}
	f.desc = append(f.desc, fmt.Sprintf("%s -> %v", o, res))
	return res
}

// learn adopts what the server holds.
func (f *faultRun) learn() {
	for _, k := range f.keys {
		f.m.Unsure[k] = true
		f.m.CheckState(k, f.r.mc.Inspect().Get(k))
	}
}

// healthy performs an op that must have exactly its own outcome.
func (f *faultRun) healthy(o hx.Op) {
	f.t.Helper()
	exp := f.m.Step(f.proto, o)
	res := f.do(o)
	if msg := f.m.CheckResult(f.proto, o, exp, res); msg != "" {
		f.fail("%s", msg)
	}
	if o.Kind == "version" && "VERSION "+res.Version != f.r.mc.Inspect().Raw("version") {
		f.fail("version is %q", res.Version)
	}
	for _, k := range f.keys {
		if msg := f.m.CheckState(k, f.r.mc.Inspect().Get(k)); msg != "" {
			f.fail("after %s: %s", o, msg)
		}
	}
}

// faulted performs o while the fault is armed. It reports whether the fault
// made the call fail; sure says that the fault lies within the call's bytes.
func (f *faultRun) faulted(o hx.Op, fl hx.Fault, sure bool) (broken bool) {
	f.t.Helper()
	f.desc = append(f.desc, fmt.Sprintf("fault %+v", fl))
	if fl.Kind == hx.FaultStall {
		hx.SetTimeout(f.c, lateTimeout)
	}
	f.r.relay.Arm(fl)
	exp := f.m.Step(f.proto, o)
	res := f.do(o)
	if res.Kind == hx.Other {
		if sure {
			return true
		}
		if !f.r.relay.Fired() || len(exp.Kinds) == 0 {
			return false
		}
		for _, k := range exp.Kinds {
			if k == hx.Other {
				return false // may be the call's own outcome
			}
		}
		return true
	}
	// Not an error of the connection: then it has to be the call's own result.
	if msg := f.m.CheckResult(f.proto, o, exp, res); msg != "" {
		f.fail("%s", msg)
	}
	return false
}

// later performs an op on the broken connection.
func (f *faultRun) later(o hx.Op) {
	f.t.Helper()
	if res := f.do(o); res.Kind != hx.Other {
		f.fail("%s on the broken connection returned %v, want an error", o, res)
	}
}

// settle lets the held bytes go and waits until the late reply is delivered.
func (f *faultRun) settle(fl hx.Fault) {
	if fl.Kind != hx.FaultStall {
		return
	}
	f.r.relay.Release()
	last := -1
	hx.WaitFor(20*time.Millisecond, func() bool {
		up, down := f.r.relay.Counts()
		same := up+down == last
		last = up + down
		return same && down > 0
	})
}

// reconnect must restore a working client.
func (f *faultRun) reconnect() {
	f.t.Helper()
	f.r.relay.Arm(hx.Fault{})
	hx.SetTimeout(f.c, 0)
	var err error
	if msg := hx.Try(func() { err = f.c.Reconnect() }); msg != "" {
		f.fail("Reconnect: %s", msg)
	}
	f.desc = append(f.desc, fmt.Sprintf("Reconnect -> %v", err))
	if err != nil {
		f.fail("Reconnect failed although the server is reachable: %v", err)
	}
	// The rest of the old connection has to be through before the contents
	// are read.
	hx.WaitFor(5*time.Second, func() bool { open, _ := f.r.relay.Conns(); return open <= 1 })
	time.Sleep(200 * time.Microsecond)
	f.learn()
}

// c08Ops is every operation in every state it can meet. cas is the current
// token of "a".
func c08Ops(proto string, big bool) []hx.Op {
	val := []byte("fresh\r\nEND\r\nvalue")
	if big {
		val = hx.Fill(5000, 3)
	}
	ops := []hx.Op{
		{Kind: "get", Key: "a"}, {Kind: "get", Key: "m"},
		{Kind: "getmulti", Keys: []string{"a", "m", "b", "n"}}, {Kind: "getmulti", Keys: []string{"m", "m2"}},
		{Kind: "set", Key: "a", Value: val, Flags: hx.U32(5), Exp: 5000}, {Kind: "set", Key: "m", Value: []byte{}},
		{Kind: "set", Key: "a", Value: val, Cas: 1}, {Kind: "set", Key: "a", Value: val, Cas: 1 << 62},
		{Kind: "add", Key: "m", Value: val}, {Kind: "add", Key: "a", Value: val},
		{Kind: "replace", Key: "a", Value: val}, {Kind: "replace", Key: "m", Value: val},
		{Kind: "delete", Key: "a"}, {Kind: "delete", Key: "m"},
		{Kind: "touch", Key: "a", Exp: 9000}, {Kind: "touch", Key: "m", Exp: 9000},
		{Kind: "incr", Key: "n", Delta: 5}, {Kind: "decr", Key: "n", Delta: 5}, {Kind: "incr", Key: "m", Delta: 5}, {Kind: "incr", Key: "a", Delta: 5},
		{Kind: "version"}, {Kind: "flush"},
	}
	if big {
		return append(ops[:1:1], ops[2], ops[4], ops[8])
	}
	return ops
}

// c08Later are calls whose own outcomes differ from each other.
var c08Later = []hx.Op{
	{Kind: "get", Key: "b"}, {Kind: "get", Key: "m2"}, {Kind: "getmulti", Keys: []string{"b", "m2", "n"}}, {Kind: "set", Key: "s", Value: []byte("later")},
	{Kind: "add", Key: "b", Value: []byte("x")}, {Kind: "replace", Key: "m2", Value: []byte("x")}, {Kind: "delete", Key: "m2"}, {Kind: "incr", Key: "n", Delta: 100},
	{Kind: "decr", Key: "n", Delta: 1}, {Kind: "touch", Key: "b", Exp: 0}, {Kind: "version"}, {Kind: "get", Key: "a"}, {Kind: "get", Key: "n"},
}

func (f *faultRun) plant(bigValues bool) {
	in := f.r.mc.Inspect()
	in.FlushAll()
	v := []byte("alpha\r\nVALUE b 0 1\r\nx\r\n")
	if bigValues {
		v = hx.Fill(4500, 9)
	}
	in.Set("a", v, 7, 0)
	in.Set("b", []byte("beta"), 1<<31, 5000)
	in.Set("n", []byte("41"), 3, 0)
	f.learn()
}

var c08Keys = []string{"a", "b", "n", "m", "m2", "s"}

// C08: every fault at every byte of every operation.
func TestC08_EveryByte(t *testing.T) {
	shard, shards := hx.Shard()
	idx := 0
	bigs := []bool{false}
	if hx.Thorough() {
		bigs = append(bigs, true)
	}
	for _, big := range bigs {
		for _, proto := range hx.Protocols {
			r := newRig(nil, proto)
			f := &faultRun{t: t, r: r, proto: proto, c: r.c[proto], keys: c08Keys}
			reset := func() {
				f.m, f.desc = hx.NewModel(), nil
				f.r.relay.Arm(hx.Fault{})
				f.plant(big)
			}
			fresh := func(o hx.Op) hx.Op {
				if o.Cas == 1 {
					o.Cas = f.m.M["a"].Cas
				}
				return o
			}
			for _, op := range c08Ops(proto, big) {
				// a dry run tells how many bytes travel
				reset()
				f.healthy(fresh(op))
				up, down := r.relay.Counts()
				for _, request := range []bool{false, true} {
					size := down
					if request {
						size = up
					}
					for _, kind := range []hx.FaultKind{hx.FaultCut, hx.FaultStall} {
						last := size
						if kind == hx.FaultStall {
							last--
						}
						step := 1
						if big && kind == hx.FaultStall {
							step = 7
						}
						for at := 0; at <= last; at += step {
							idx++
							if idx%shards != shard {
								continue
							}
							reset()
							fl := hx.Fault{Kind: kind, Request: request, After: at}
							o := fresh(op)
							broken := f.faulted(o, fl, true)
							if broken {
								f.settle(fl)
								f.later(c08Later[idx%len(c08Later)])
								f.later(c08Later[(idx*7+3)%len(c08Later)])
							}
							f.reconnect()
							f.healthy(c08Later[(idx*5+1)%len(c08Later)])
							f.healthy(c08Later[(idx*11+2)%len(c08Later)])
							out := "complete"
							if broken {
								out = "broken"
							}
							hx.Case(fmt.Sprintf("%s %s %+v", proto, op, fl), broken, fmt.Sprintf("fault=%d request=%v %s", kind, request, out), "op:"+op.Kind)
						}
					}
				}
			}
			r.close()
		}
	}
}

// C08: histories with faults at random places.
func TestC08_Histories(t *testing.T) {
	hx.Check(t, 150, 6000, func(t *rapid.T) {
		proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		keys := hx.Keys(2, 4).Draw(t, "keys")
		r := newRig(hx.Segments().Draw(t, "segments"), proto)
		defer r.close()
		f := &faultRun{t: t, r: r, proto: proto, c: r.c[proto], keys: keys, m: hx.NewModel()}
		cfg := histCfg{kinds: allKinds, keys: keys, exps: hx.LongTTL(), values: rapid.OneOf(histValue(), hx.Value()), past: map[string][]hx.Op{}}
		rounds := rapid.IntRange(1, 4).Draw(t, "rounds")
		fired := 0
		for i := 0; i < rounds; i++ {
			n := rapid.IntRange(0, 5).Draw(t, "before")
			for j := 0; j < n; j++ {
				f.healthy(cfg.drawOp(t, nil))
			}
			fl := hx.Fault{Kind: rapid.SampledFrom([]hx.FaultKind{hx.FaultCut, hx.FaultStall}).Draw(t, "fault"), Request: rapid.IntRange(0, 3).Draw(t, "request") == 0}
			fl.After = rapid.OneOf(rapid.IntRange(0, 60), rapid.SampledFrom([]int{23, 24, 25, 28, 32, 100, 1000, 4072, 4095, 4096, 4097, 8192})).Draw(t, "after")
			o := cfg.drawOp(t, nil)
			broken := f.faulted(o, fl, false)
			if broken {
				fired++
				// the late reply may come before, between or after later calls
				k := rapid.IntRange(0, 3).Draw(t, "later")
				rel := rapid.IntRange(0, k).Draw(t, "release")
				for j := 0; j < k; j++ {
					if j == rel {
						f.settle(fl)
					}
					f.later(cfg.drawOp(t, nil))
				}
				if rel == k {
					f.settle(fl)
				}
			}
			f.reconnect()
		}
		n := rapid.IntRange(1, 5).Draw(t, "after")
		for j := 0; j < n; j++ {
			f.healthy(cfg.drawOp(t, nil))
		}
		hx.Case(fmt.Sprint(f.desc), fired > 0, fmt.Sprintf("faults that broke a call: %d", fired))
	})
}

// C08: faults within calls that go out in several batches.
func TestC08_Batches(t *testing.T) {
	hx.Check(t, 40, 1500, func(t *rapid.T) {
		proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		r := newRig(nil, proto)
		defer r.close()
		n := rapid.OneOf(rapid.SampledFrom([]int{63, 64, 65, 66, 127, 128, 129, 130, 192, 193, 300}), rapid.IntRange(60, 260)).Draw(t, "keys")
		f := &faultRun{t: t, r: r, proto: proto, c: r.c[proto], m: hx.NewModel()}
		missing := rapid.SampledFrom([]int{1, 2, 3, 7, 1000}).Draw(t, "missing")
		size := rapid.SampledFrom([]int{0, 1, 10, 100, 700}).Draw(t, "size")
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%d", i)
			f.keys = append(f.keys, k)
			if i%missing != missing-1 {
				r.mc.Inspect().Set(k, hx.Fill(size+i%5, byte(i)), uint32(i), 0)
			}
		}
		f.learn()
		all := hx.Op{Kind: "getmulti", Keys: append([]string{}, f.keys...)}
		small := func(label string) hx.Op {
			o := hx.Op{Kind: rapid.SampledFrom([]string{"get", "getmulti", "getmulti", "set", "delete", "touch", "version"}).Draw(t, label)}
			switch k := rapid.SampledFrom(f.keys).Draw(t, "key"); o.Kind {
			case "getmulti":
				from := rapid.IntRange(0, n-1).Draw(t, "from")
				o.Keys = append([]string{}, f.keys[from:rapid.IntRange(from+1, n).Draw(t, "to")]...)
			case "version":
			default:
				o.Key = k
				if o.Kind == "set" {
					o.Value = []byte("later")
				}
			}
			return o
		}
		r.relay.Arm(hx.Fault{})
		f.healthy(all)
		up, down := r.relay.Counts()
		fired := 0
		for i, rounds := 0, rapid.IntRange(1, 4).Draw(t, "rounds"); i < rounds; i++ {
			fl := hx.Fault{Kind: rapid.SampledFrom([]hx.FaultKind{hx.FaultCut, hx.FaultStall}).Draw(t, "fault"), Request: rapid.IntRange(0, 2).Draw(t, "request") == 0}
			max := down
			if fl.Request {
				max = up
			}
			fl.After = rapid.IntRange(0, max-1).Draw(t, "after")
			if f.faulted(all, fl, false) {
				fired++
				k := rapid.IntRange(0, 2).Draw(t, "later")
				for j := 0; j < k; j++ {
					f.later(small("lateop"))
				}
				f.settle(fl)
				f.later(small("lateop"))
			}
			f.reconnect()
			f.healthy(small("op"))
			f.healthy(all)
		}
		hx.Case(fmt.Sprintf("%s: %d keys of %d bytes, every %dth missing: %v", proto, n, size, missing, len(f.desc)), fired > 0 && n > 64, fmt.Sprintf("batches: faults that broke a call: %d", fired))
	})
}

// largeRig is the memcached for values above the usual limit, behind a relay.
var largeRig *rig

// C08: faults within values above the usual item limit.
func TestC08_Large(t *testing.T) {
	hx.Check(t, 12, 400, func(t *rapid.T) {
		proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		if largeMC == nil {
			largeMC = hx.NewMemcachedLarge()
		}
		if largeRig == nil {
			largeRig = &rig{mc: largeMC, relay: hx.NewRelay(largeMC.Network, largeMC.Addr)}
		}
		r := largeRig
		r.relay.Arm(hx.Fault{})
		in := r.mc.Inspect()
		in.FlushAll()
		r.c = map[string]client.Server{proto: r.relay.Dial(proto, "srv")}
		defer r.close()
		f := &faultRun{t: t, r: r, proto: proto, c: r.c[proto], keys: []string{"a", "b", "m"}, m: hx.NewModel()}
		f.m.Large = true
		large := rapid.Custom(func(t *rapid.T) []byte {
			return hx.Fill(rapid.SampledFrom([]int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 5000, 2<<20 + 3, 5 << 20}).Draw(t, "size"), rapid.Byte().Draw(t, "salt"))
		})
		in.Set("a", large.Draw(t, "a"), 7, 0)
		in.Set("b", rapid.OneOf(large, hx.SmallValue()).Draw(t, "b"), 9, 0)
		f.learn()
		o := rapid.SampledFrom([]hx.Op{{Kind: "get", Key: "a"}, {Kind: "getmulti", Keys: []string{"a", "m", "b"}}, {Kind: "getmulti", Keys: []string{"b", "a"}}, {Kind: "set", Key: "a"}, {Kind: "add", Key: "m"}, {Kind: "replace", Key: "b"}}).Draw(t, "op")
		if o.Kind != "get" && o.Kind != "getmulti" {
			o.Value = large.Draw(t, "value")
		}
		f.healthy(hx.Op{Kind: "get", Key: "b"})
		r.relay.Arm(hx.Fault{})
		// a dry run would change what the call meets: sizes are known
		fl := hx.Fault{Kind: rapid.SampledFrom([]hx.FaultKind{hx.FaultCut, hx.FaultCut, hx.FaultStall}).Draw(t, "fault"), Request: o.Kind != "get" && o.Kind != "getmulti"}
		size := len(o.Value)
		if !fl.Request {
			size = len(f.m.M["a"].Value)
			if o.Kind == "getmulti" {
				size += len(f.m.M["b"].Value)
			}
		}
		fl.After = rapid.OneOf(rapid.IntRange(0, size), rapid.IntRange(size-100, size+60), rapid.SampledFrom([]int{1 << 20, 1<<20 + 24, 1<<20 + 28})).Draw(t, "after")
		broken := f.faulted(o, fl, false)
		if broken {
			k := rapid.IntRange(0, 2).Draw(t, "later")
			for j := 0; j < k; j++ {
				f.later(hx.Op{Kind: "get", Key: "b"})
			}
			f.settle(fl)
			f.later(hx.Op{Kind: "get", Key: "a"})
		}
		f.reconnect()
		f.healthy(hx.Op{Kind: "getmulti", Keys: f.keys})
		f.healthy(hx.Op{Kind: "get", Key: "a"})
		out := "complete"
		if broken {
			out = "broken"
		}
		hx.Case(fmt.Sprintf("%s %s of %d bytes, %+v", proto, o.Kind, size, fl), broken, "large values: "+out)
	})
}
