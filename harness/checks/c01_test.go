package checks

import (
	"bytes"
	"fmt"
	"testing"

	"go.f110.dev/go-memcached/client"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C01: what one protocol client stores, every protocol client reads back.
func TestC01_RoundTrip(t *testing.T) {
	hx.Check(t, 1200, 40000, func(t *rapid.T) {
		seg := hx.Segments().Draw(t, "segments")
		key := hx.Key().Draw(t, "key")
		val := hx.BigValue().Draw(t, "value")
		flags := hx.FlagBytes().Draw(t, "flags")
		if flags == nil && rapid.Bool().Draw(t, "emptyflags") {
			flags = []byte{}
		}
		w := rapid.SampledFrom(hx.Protocols).Draw(t, "writer")
		op := rapid.SampledFrom([]string{"set", "add", "replace"}).Draw(t, "op")
		ttl := hx.LongTTL().Draw(t, "ttl")
		other := hx.Key().Filter(func(k string) bool { return k != key }).Draw(t, "other")
		oval := hx.SmallValue().Draw(t, "othervalue")

		r := newRig(seg, hx.Protocols...)
		defer r.close()
		r.mc.Inspect().Set(other, oval, 7, 0)
		if op == "replace" {
			r.mc.Inspect().Set(key, []byte("old content"), 99, 0)
		}
		o := hx.Op{Kind: op, Key: key, Value: val, Flags: flags, Exp: ttl}
		if res := hx.Run(t, r.c[w], o); res.Err != nil {
			t.Fatalf("%s via %s: %v", o, w, res)
		}
		st := r.mc.Inspect().Get(key)
		if !st.Exists || !bytes.Equal(st.Value, val) || st.Flags != hx.FlagWord(flags) {
			t.Fatalf("%s via %s: server holds %v", o, w, st)
		}
		for _, p := range hx.Protocols {
			g := hx.Run(t, r.c[p], hx.Op{Kind: "get", Key: key})
			if g.Err != nil || g.Item == nil || g.Item.Key != key || !bytes.Equal(g.Item.Value, val) ||
				len(g.Item.Flags) != 4 || hx.FlagWord(g.Item.Flags) != hx.FlagWord(flags) {
				t.Fatalf("stored %s via %s, get via %s: %v", o, w, p, g)
			}
			keys := []string{key, other}
			if rapid.Bool().Draw(t, "order") {
				keys = []string{other, key}
			}
			gm := hx.Run(t, r.c[p], hx.Op{Kind: "getmulti", Keys: keys})
			if gm.Err != nil || len(gm.Items) != 2 {
				t.Fatalf("stored %s via %s, getmulti via %s: %v", o, w, p, gm)
			}
			seen := map[string]bool{}
			for _, it := range gm.Items {
				wv, wf := val, hx.FlagWord(flags)
				if it.Key == other {
					wv, wf = oval, 7
				} else if it.Key != key {
					t.Fatalf("getmulti via %s returned key %q", p, it.Key)
				}
				seen[it.Key] = true
				if !bytes.Equal(it.Value, wv) || len(it.Flags) != 4 || hx.FlagWord(it.Flags) != wf {
					t.Fatalf("stored %s via %s, getmulti via %s: %v", o, w, p, gm)
				}
			}
			if len(seen) != 2 {
				t.Fatalf("getmulti via %s: %v", p, gm)
			}
		}
		nontriv := len(val) == 0 || len(val) > 1000 || bytes.ContainsAny(val, "\r\n\x00") || hx.FlagWord(flags) > 0xffff || len(key) > 40 || !ascii(key) || len(seg) > 0
		labels := []string{"writer:" + w, "op:" + op}
		if len(val) > 4096 {
			labels = append(labels, "value>4096")
		}
		if len(val) == 0 {
			labels = append(labels, "value-empty")
		}
		if hx.FlagWord(flags) >= 1<<31 {
			labels = append(labels, "flags>=2^31")
		}
		if !ascii(key) {
			labels = append(labels, "key-non-ascii")
		}
		if len(seg) > 0 {
			labels = append(labels, "segmented")
		}
		hx.Case(fmt.Sprintf("%s via %s segments=%v", o, w, seg), nontriv, labels...)
	})
}

var largeMC *hx.Memcached

// C01: items above the usual limit, on a memcached that takes them.
func TestC01_AboveLimit(t *testing.T) {
	hx.Check(t, 25, 600, func(t *rapid.T) {
		if largeMC == nil {
			largeMC = hx.NewMemcachedLarge()
		}
		in := largeMC.Inspect()
		in.FlushAll()
		keys := hx.Keys(1, 3).Draw(t, "keys")
		want := map[string][]byte{}
		var desc []string
		c := map[string]client.Server{}
		for _, p := range hx.Protocols {
			x, err := hx.Dial(p, "srv", largeMC.Network, largeMC.Addr)
			if err != nil {
				hx.Infra("dial: %v", err)
			}
			defer closeQuiet(x)
			c[p] = x
		}
		above := 0
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "items"); i < n; i++ {
			k, w := rapid.SampledFrom(keys).Draw(t, "key"), rapid.SampledFrom(hx.Protocols).Draw(t, "writer")
			v := rapid.OneOf(hx.AboveValue(), hx.AboveValue(), hx.SmallValue()).Draw(t, "value")
			if len(v) >= 1<<20 {
				above++
			}
			o := hx.Op{Kind: "set", Key: k, Value: v, Flags: hx.U32(uint32(len(v)))}
			if res := hx.Run(t, c[w], o); res.Err != nil {
				t.Fatalf("%s via %s: %v", o, w, res)
			}
			want[k] = v
			desc = append(desc, fmt.Sprintf("%s via %s", o, w))
			for _, p := range hx.Protocols {
				for _, k := range keys {
					g := hx.Run(t, c[p], hx.Op{Kind: "get", Key: k})
					v, ok := want[k]
					if ok && (g.Err != nil || g.Item == nil || g.Item.Key != k || !bytes.Equal(g.Item.Value, v) || hx.FlagWord(g.Item.Flags) != uint32(len(v))) || !ok && g.Kind != hx.NotFound {
						t.Fatalf("after %s: get %q via %s: %v, want %d bytes", desc, k, p, g, len(v))
					}
				}
				gm := hx.Run(t, c[p], hx.Op{Kind: "getmulti", Keys: keys})
				if gm.Err != nil || len(gm.Items) != len(want) {
					t.Fatalf("after %s: getmulti via %s: %v", desc, p, gm)
				}
				for _, it := range gm.Items {
					if v, ok := want[it.Key]; !ok || !bytes.Equal(it.Value, v) || hx.FlagWord(it.Flags) != uint32(len(v)) {
						t.Fatalf("after %s: getmulti via %s returned %q with %d bytes, want %d", desc, p, it.Key, len(it.Value), len(v))
					}
				}
			}
		}
		hx.Case(fmt.Sprint(desc), above > 0, "above the usual item limit")
	})
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}
