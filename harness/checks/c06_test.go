package checks

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// drawExp draws an expiration and what it means. The meaning of an absolute
// time is kept well away from now.
func drawExp(t *rapid.T) (exp int, class string) {
	now := int(time.Now().Unix())
	switch rapid.IntRange(0, 6).Draw(t, "expclass") {
	case 0:
		return 0, "none"
	case 1:
		return rapid.SampledFrom([]int{100, 3600, 65535, 65536, 86400, 2591999, 2592000}).Draw(t, "rel"), "relative"
	case 2:
		return rapid.IntRange(60, 2592000).Draw(t, "rel"), "relative"
	case 3:
		return now + rapid.SampledFrom([]int{100, 5000, 2592000, 2592001, 31536000}).Draw(t, "in"), "absolute"
	case 4:
		return rapid.SampledFrom([]int{2147483647, 2147483646, 2100000000}).Draw(t, "abs"), "absolute"
	case 5:
		return rapid.SampledFrom([]int{2592001, 2592002, 10000000, 1000000000, now - 100, now - 100000}).Draw(t, "past"), "past"
	}
	return rapid.OneOf(rapid.SampledFrom([]int{-1, -2, -100, -2592001, -2147483647, -2147483648}), rapid.IntRange(-2147483648, -1)).Draw(t, "neg"), "negative"
}

// expectTTL is the remaining lifetime an expiration means: -1 none; gone.
func expectTTL(exp int) (ttl int64, gone bool) {
	switch {
	case exp < 0:
		return 0, true
	case exp == 0:
		return -1, false
	case exp <= 2592000:
		return int64(exp), false
	}
	ttl = int64(exp) - time.Now().Unix()
	return ttl, ttl <= 0
}

// C06: what every expiration becomes on the server.
func TestC06_Lifetime(t *testing.T) {
	hx.Check(t, 1500, 40000, func(t *rapid.T) {
		r := newRig(hx.Segments().Draw(t, "segments"), hx.Protocols...)
		defer r.close()
		in := r.mc.Inspect()
		key := hx.Key().Draw(t, "key")
		p := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		o := hx.Op{Key: key, Kind: rapid.SampledFrom([]string{"set", "casset", "add", "replace", "touch", "touch", "touchabsent", "create"}).Draw(t, "op")}
		var class string
		o.Exp, class = drawExp(t)
		val, flags := hx.SmallValue().Draw(t, "value"), hx.Flags32().Draw(t, "flags")
		oldTTL := int64(rapid.SampledFrom([]int{0, 777}).Draw(t, "oldttl"))
		var before hx.State
		wantKind := hx.OK
		switch o.Kind {
		case "add":
			if rapid.IntRange(0, 3).Draw(t, "withtoken") == 0 {
				// An item that was read elsewhere; the token is no condition.
				o.Cas = rapid.SampledFrom([]uint64{1, 77, 1 << 40}).Draw(t, "token")
			}
		case "replace", "touch":
			in.Set(key, val, flags, oldTTL)
			before = in.Get(key)
			if o.Kind == "replace" && rapid.Bool().Draw(t, "withtoken") {
				o.Cas = before.Cas // an item as it was read
			}
		case "casset":
			in.Set(key, []byte("old"), 5, oldTTL)
			o.Kind, o.Cas = "set", in.Get(key).Cas
			class += ", conditional"
		case "touchabsent":
			o.Kind, wantKind = "touch", ""
		case "create":
			p, o.Kind, o.Delta = hx.Binary, rapid.SampledFrom([]string{"incr", "decr"}).Draw(t, "counter"), 5
			val, flags = []byte("1"), 0
			if o.Exp < 0 {
				wantKind = "any"
			}
		}
		o.Value, o.Flags = val, hx.U32(flags)
		desc := p + "." + o.String() + " (" + class + ")"
		ttl, gone := expectTTL(o.Exp)
		start := time.Now()
		res := hx.Run(t, r.c[p], o)
		if wantKind == hx.OK && res.Err != nil {
			t.Fatalf("%s: %v", desc, res)
		}
		if wantKind == "" && res.Err == nil {
			t.Fatalf("%s of an absent key: success", desc)
		}
		st := in.Get(key)
		if wantKind == "" {
			gone, desc = true, desc+" absent"
		}
		if gone {
			if st.Exists {
				t.Fatalf("%s: server holds %v", desc, st)
			}
		} else {
			e := &hx.Entry{TTL: ttl, At: start}
			if msg := hx.TTLMatches(st.TTL, e); !st.Exists || msg != "" {
				t.Fatalf("%s: server holds %v: %s", desc, st, msg)
			}
			if !bytes.Equal(st.Value, val) || st.Flags != flags || st.Stale {
				t.Fatalf("%s: server holds %v", desc, st)
			}
			if o.Kind == "touch" && st.Cas != before.Cas {
				t.Fatalf("%s: cas changed from %d to %d", desc, before.Cas, st.Cas)
			}
		}
		// what the clients see of it
		for _, q := range hx.Protocols {
			g := hx.Run(t, r.c[q], hx.Op{Kind: "get", Key: key})
			gm := hx.Run(t, r.c[q], hx.Op{Kind: "getmulti", Keys: []string{key}})
			if gone {
				if g.Kind != hx.NotFound || gm.Err != nil || len(gm.Items) != 0 {
					t.Fatalf("%s: then via %s get %v getmulti %v", desc, q, g, gm)
				}
				continue
			}
			if g.Err != nil || !bytes.Equal(g.Item.Value, val) || g.Item.Cas != st.Cas || hx.FlagWord(g.Item.Flags) != flags {
				t.Fatalf("%s: then get via %s: %v, server holds %v", desc, q, g, st)
			}
			if gm.Err != nil || len(gm.Items) != 1 {
				t.Fatalf("%s: then getmulti via %s: %v", desc, q, gm)
			}
			if q == hx.Meta {
				e := &hx.Entry{TTL: ttl, At: start}
				if msg := hx.TTLMatches(int64(g.Item.Expiration), e); msg != "" {
					t.Fatalf("%s: meta get reports %s", desc, msg)
				}
				if msg := hx.TTLMatches(int64(gm.Items[0].Expiration), e); msg != "" {
					t.Fatalf("%s: meta getmulti reports %s", desc, msg)
				}
			}
		}
		// a token from before a touch stays valid
		if o.Kind == "touch" && !gone && wantKind == hx.OK {
			q := rapid.SampledFrom(hx.Protocols).Draw(t, "casproto")
			s := hx.Run(t, r.c[q], hx.Op{Kind: "set", Key: key, Value: []byte("new"), Cas: before.Cas})
			if s.Err != nil {
				t.Fatalf("%s: then set via %s with the token from before: %v", desc, q, s)
			}
		}
		hx.Case(desc, !strings.HasPrefix(class, "none") || o.Kind == "touch", "exp:"+class, "op:"+o.Kind+":"+p)
	})
}

// Expirations that 32 bits cannot hold: refused, or meant as they are; never
// turned into another lifetime.
func TestC06_OutOfRange(t *testing.T) {
	hx.Check(t, 200, 3000, func(t *rapid.T) {
		r := newRig(nil, hx.Protocols...)
		defer r.close()
		in := r.mc.Inspect()
		p := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		o := hx.Op{Key: "k", Kind: rapid.SampledFrom([]string{"set", "casset", "add", "replace", "touch"}).Draw(t, "op"), Value: []byte("v")}
		o.Exp = rapid.OneOf(rapid.SampledFrom([]int{1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 100, 1<<63 - 1, 1<<33 + 5000}), rapid.IntRange(1<<31, 1<<63-1)).Draw(t, "exp")
		in.FlushAll()
		if o.Kind != "add" {
			in.Set("k", []byte("old"), 0, 500)
		}
		if o.Kind == "casset" {
			o.Kind, o.Cas = "set", in.Get("k").Cas
		}
		res := hx.Run(t, r.c[p], o)
		st := in.Get("k")
		desc := p + "." + o.String()
		if res.Err == nil {
			// The lifetime is longer than any the server can report exactly.
			if !st.Exists || st.TTL >= 0 && st.TTL < 1000000000-1 && st.TTL < 2147483647-time.Now().Unix()-10 {
				t.Fatalf("%s succeeded, server holds %v", desc, st)
			}
		} else if o.Kind != "add" && (!st.Exists || string(st.Value) != "old" || st.TTL < 493-hx.TTLSlack() || st.TTL > 500) {
			t.Fatalf("%s failed (%v), server holds %v", desc, res.Err, st)
		} else if o.Kind == "add" && st.Exists {
			t.Fatalf("%s failed (%v), server holds %v", desc, res.Err, st)
		}
		hx.Case(desc, true, "out-of-range")
	})
}

// Real time: items are there before and gone after the end of their lifetime.
func TestC06_Elapse(t *testing.T) {
	hx.Check(t, 1, 3, func(t *rapid.T) {
		r := newRig(nil, hx.Protocols...)
		defer r.close()
		in := r.mc.Inspect()
		type item struct {
			desc string
			life int
			key  string
		}
		var items []item
		n := 40
		for i := 0; i < n; i++ {
			p := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
			k := fmt.Sprintf("k%d", i)
			life := rapid.SampledFrom([]int{1, 2, 3, 600, 0}).Draw(t, "life")
			exp := life
			if life > 0 && rapid.Bool().Draw(t, "absolute") {
				exp = int(time.Now().Unix()) + life
			}
			o := hx.Op{Kind: rapid.SampledFrom([]string{"set", "casset", "add", "replace", "touch", "create"}).Draw(t, "op"), Key: k, Value: []byte("v"), Exp: exp}
			begun, old := time.Now(), 900
			switch o.Kind {
			case "replace", "touch":
				old = rapid.SampledFrom([]int{0, 5, 900}).Draw(t, "old")
				in.Set(k, []byte("old"), 0, int64(old))
			case "casset":
				in.Set(k, []byte("old"), 0, 900)
				o.Kind, o.Cas = "set", in.Get(k).Cas
			case "create":
				o.Kind, p = "incr", hx.Binary
			}
			if res := hx.Run(t, r.c[p], o); res.Err != nil {
				if life > 0 && life <= 3 || old == 5 && time.Since(begun) > 2*time.Second {
					continue // it may have ended meanwhile
				}
				t.Fatalf("%s.%s: %v", p, o, res)
			}
			items = append(items, item{p + "." + o.String(), life, k})
		}
		// Every lifetime ended 3 seconds ago, even when the server's clock
		// is late.
		time.Sleep(6500*time.Millisecond + time.Duration(hx.TTLSlack()-3)*time.Second)
		for _, it := range items {
			for _, p := range hx.Protocols {
				g := hx.Run(t, r.c[p], hx.Op{Kind: "get", Key: it.key})
				if it.life > 0 && it.life <= 3 {
					if g.Kind != hx.NotFound {
						t.Fatalf("%s: still there long after: %v", it.desc, g)
					}
				} else if g.Err != nil {
					t.Fatalf("%s: gone: %v", it.desc, g)
				}
			}
			hx.Case("elapse "+it.desc, true, fmt.Sprintf("life:%d", it.life))
		}
	})
}
