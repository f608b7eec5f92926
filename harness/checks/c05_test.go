package checks

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

var two63 = new(big.Int).Lsh(big.NewInt(1), 63)

// C05: arithmetic of Increment and Decrement.
func TestC05_Numbers(t *testing.T) {
	hx.Check(t, 1200, 40000, func(t *rapid.T) {
		r := newRig(hx.Segments().Draw(t, "segments"), hx.Protocols...)
		defer r.close()
		in := r.mc.Inspect()
		key := hx.Key().Draw(t, "key")
		other := hx.Key().Filter(func(k string) bool { return k != key }).Draw(t, "other")
		in.Set(other, []byte("41"), 3, 0)
		bound := rapid.SampledFrom([]uint64{0, 1, 9, 10, 99, 100, 999, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<62 + 7, 1<<63 - 1, 1 << 63, 1<<63 + 5, 1<<64 - 1, 9999999999, 9999999999999999999})
		start := rapid.OneOf(bound, rapid.Uint64(), rapid.Uint64Range(0, 1000)).Draw(t, "start")
		digits := fmt.Sprint(start)
		// the same number, written with leading zeros
		if pad := rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "zeros"); len(digits)+pad <= 20 {
			digits = strings.Repeat("0", pad) + digits
		}
		flags := hx.Flags32().Draw(t, "flags")
		ttl := int64(rapid.SampledFrom([]int{0, 0, 3000, 100000, 2592000}).Draw(t, "ttl"))
		in.Set(key, []byte(digits), flags, ttl)
		set := time.Now()
		if ttl == 0 {
			ttl = -1
		}
		now := new(big.Int).SetUint64(start)
		desc := fmt.Sprintf("%q=%s f=%d ttl=%d", key, digits, flags, ttl)
		n := rapid.IntRange(1, 6).Draw(t, "calls")
		applied, floor := 0, false
		for i := 0; i < n; i++ {
			p := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
			// what went over this connection before must not matter
			if rapid.IntRange(0, 3).Draw(t, "before") == 0 {
				b := histCfg{kinds: []string{"get", "set", "set", "add", "incr", "delete", "getmulti", "touch", "replace"}, keys: []string{"before"}, exps: histExp(), values: histValue()}.drawOp(t, []uint64{77, 1 << 40})
				if key == "before" || other == "before" {
					b = hx.Op{Kind: "version"}
				}
				res := hx.Run(t, r.c[p], b)
				desc += fmt.Sprintf("; %s.%s -> %s", p, b, res.Kind)
			}
			o := hx.Op{Kind: rapid.SampledFrom([]string{"incr", "decr"}).Draw(t, "op"), Key: key}
			o.Delta = rapid.OneOf(rapid.SampledFrom([]int{0, 1, 9, 10, 90, 255, 256, 65536, 1 << 31, 1 << 32, 1<<32 + 1, 1<<62 + 1, 1<<63 - 1}), rapid.IntRange(0, 1000), rapid.IntRange(0, 1<<63-1)).Draw(t, "delta")
			// exactly down to zero, or one less and one more
			if rapid.IntRange(0, 5).Draw(t, "tozero") == 0 && now.IsInt64() {
				if d := now.Int64() + int64(rapid.IntRange(-1, 1).Draw(t, "off")); d >= 0 {
					o.Kind, o.Delta = "decr", int(d)
				}
			}
			o.Exp = rapid.SampledFrom([]int{0, 0, 100, -1}).Draw(t, "exp")
			next := new(big.Int)
			if o.Kind == "incr" {
				next.Add(now, big.NewInt(int64(o.Delta)))
			} else if next.Sub(now, big.NewInt(int64(o.Delta))); next.Sign() < 0 {
				next.SetInt64(0)
			}
			if next.Cmp(two63) >= 0 {
				continue // not a result the signature can report
			}
			if next.Sign() == 0 && o.Kind == "decr" {
				floor = true
			}
			res := hx.Run(t, r.c[p], o)
			desc += fmt.Sprintf("; %s.%s", p, o)
			if res.Err != nil || res.N != next.Int64() {
				t.Fatalf("%s returned %v, want %v", desc, res, next)
			}
			st := in.Get(key)
			sv, ok := new(big.Int).SetString(strings.TrimRight(string(st.Value), " "), 10)
			if !st.Exists || !ok || sv.Cmp(next) != 0 {
				t.Fatalf("%s: server holds %v, want %v", desc, st, next)
			}
			if st.Flags != flags {
				t.Fatalf("%s: flags are now %d", desc, st.Flags)
			}
			if msg := hx.TTLMatches(st.TTL, &hx.Entry{TTL: ttl, At: set}); msg != "" {
				t.Fatalf("%s: %s", desc, msg)
			}
			now = next
			applied++
		}
		if st := in.Get(other); string(st.Value) != "41" || st.Flags != 3 {
			t.Fatalf("%s: other key is %v", desc, st)
		}
		labels := []string{}
		if floor {
			labels = append(labels, "reached-zero")
		}
		if start >= 1<<32 {
			labels = append(labels, "start>=2^32")
		}
		hx.Case(desc, applied > 0, labels...)
	})
}

// Items that are not numbers, and absent keys.
func TestC05_Refused(t *testing.T) {
	hx.Check(t, 700, 15000, func(t *rapid.T) {
		r := newRig(hx.Segments().Draw(t, "segments"), hx.Protocols...)
		defer r.close()
		in := r.mc.Inspect()
		key := hx.Key().Draw(t, "key")
		p := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		// what went over this connection before must not matter
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "before"); i < n; i++ {
			o := histCfg{kinds: []string{"get", "set", "incr", "delete", "getmulti", "touch", "replace"}, keys: []string{"before"}, exps: histExp(), values: histValue()}.drawOp(t, []uint64{77})
			hx.Run(t, r.c[p], o)
		}
		o := hx.Op{Kind: rapid.SampledFrom([]string{"incr", "decr"}).Draw(t, "op"), Key: key, Delta: rapid.IntRange(0, 1<<63-1).Draw(t, "delta")}
		if rapid.Bool().Draw(t, "absent") {
			o.Exp = rapid.OneOf(hx.LongTTL(), rapid.SampledFrom([]int{2147483647, 2000000000})).Draw(t, "exp")
			in.Delete(key)
			start := time.Now()
			res := hx.Run(t, r.c[p], o)
			st := in.Get(key)
			desc := fmt.Sprintf("absent %s.%s", p, o)
			if p == hx.Binary {
				if res.Err != nil || res.N != 1 {
					t.Fatalf("%s: %v, want 1", desc, res)
				}
				want := &hx.Entry{TTL: int64(o.Exp), At: start}
				if o.Exp == 0 {
					want.TTL = -1
				} else if o.Exp > 2592000 {
					want.TTL = int64(o.Exp) - start.Unix()
				}
				if !st.Exists || string(st.Value) != "1" || st.Flags != 0 || hx.TTLMatches(st.TTL, want) != "" {
					t.Fatalf("%s: server holds %v", desc, st)
				}
			} else {
				if res.Kind != hx.NotFound {
					t.Fatalf("%s: %v, want ItemNotFound", desc, res)
				}
				if st.Exists {
					t.Fatalf("%s: server holds %v", desc, st)
				}
			}
			hx.Case(desc, true, "absent:"+p)
			return
		}
		val := rapid.OneOf(hx.SmallValue(), rapid.SliceOfN(rapid.Byte(), 1, 30), rapid.Just([]byte("12a")), rapid.Just([]byte("a12")), rapid.Just([]byte("x"))).Draw(t, "value")
		if _, c := hx.Numeric(val); c >= 0 {
			val = append([]byte("x"), val...)
		}
		flags := hx.Flags32().Draw(t, "flags")
		in.Set(key, val, flags, 0)
		before := in.Get(key)
		desc := fmt.Sprintf("%s.%s on %s", p, o, hx.Q(val))
		res := hx.Run(t, r.c[p], o)
		if res.Kind != hx.Other {
			t.Fatalf("%s: %v, want an error", desc, res)
		}
		st := in.Get(key)
		if !st.Exists || !bytes.Equal(st.Value, val) || st.Flags != flags || st.Cas != before.Cas {
			t.Fatalf("%s: server holds %v", desc, st)
		}
		// the connection is in step
		g := hx.Run(t, r.c[p], hx.Op{Kind: "get", Key: key})
		if g.Err != nil || !bytes.Equal(g.Item.Value, val) {
			t.Fatalf("%s: then get: %v", desc, g)
		}
		hx.Case(desc, true, "non-numeric:"+p)
	})
}
