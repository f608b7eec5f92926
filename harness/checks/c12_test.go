package checks

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// badByte draws a byte that the text protocols can't carry in a key.
func badByte() *rapid.Generator[byte] {
	return rapid.Custom(func(t *rapid.T) byte {
		n := rapid.IntRange(0, 33).Draw(t, "bad")
		if n == 33 {
			return 0x7f
		}
		return byte(n)
	})
}

// AnyKey draws keys of every kind: legal, and all ways of not being so.
func anyKey() *rapid.Generator[string] {
	return rapid.OneOf(
		hx.Key(), hx.Key(),
		rapid.SampledFrom([]string{"", " ", "\r\n", "\n", "\r", "\x00", "\t", "\x7f", "a b", "a ", " a", "a\r\n", "a\n", "a\r", "a\x00", "a\x7f", "a\tb", "a\vb", "a\fb",
			"a\r\ndelete sentinel", "a\r\ndelete sentinel\r\n", "a\r\nflush_all", "a\nflush_all\n", "sentinel 0 0 1\r\nx\r\nget a", "a 0 0 1\r\nx\r\nset sentinel", "a sentinel",
			"a noreply", "sentinel noreply", "a q", "sentinel q", "a k v", "a 1 T0\r\nx\r\nms sentinel", "a\r\nquit\r\n", "\r\nflush_all\r\n", "a\r\nversion", "a 0", "a 1 2 3 4", "a\u0085b", "\u2028", "a\x1fb", "a\x01"}),
		rapid.Custom(func(t *rapid.T) string {
			// a legal key with one bad byte somewhere
			k := []byte(hx.Key().Draw(t, "base"))
			i := rapid.IntRange(0, len(k)-1).Draw(t, "at")
			k[i] = badByte().Draw(t, "byte")
			return string(k)
		}),
		rapid.Custom(func(t *rapid.T) string { return string(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")) }),
		rapid.Custom(func(t *rapid.T) string {
			n := rapid.SampledFrom([]int{249, 250, 251, 252, 255, 256, 257, 300, 1000, 2047, 2048, 4096, 10000, 65535, 65536, 65537, 65540, 65536 + 8, 131072 + 1, 1 << 20}).Draw(t, "len")
			return strings.Repeat(rapid.SampledFrom([]string{"k", "s", "x"}).Draw(t, "fill"), n)
		}),
		rapid.Custom(func(t *rapid.T) string {
			// ends in the sentinel's name once its length is cut to 16 bits
			return strings.Repeat("z", 65536-8) + "sentinel" + strings.Repeat("z", rapid.IntRange(0, 9).Draw(t, "more"))
		}),
		rapid.Just("sentinel"+strings.Repeat("z", 65536)),
	)
}

var c12Kinds = []string{"get", "getmulti", "set", "casset", "add", "replace", "delete", "touch", "incr", "decr"}

func c12Op(t *rapid.T, key string) hx.Op {
	o := hx.Op{Kind: rapid.SampledFrom(c12Kinds).Draw(t, "op"), Key: key, Value: hx.SmallValue().Draw(t, "value"), Flags: hx.FlagBytes().Draw(t, "flags"), Delta: 3}
	switch o.Kind {
	case "casset":
		o.Kind, o.Cas = "set", uint64(rapid.IntRange(1, 50).Draw(t, "cas"))
	case "getmulti":
		o.Key = ""
		others := rapid.SliceOfN(rapid.SampledFrom([]string{"sentinel", "sentinel2", "nokey"}), 0, 3).Draw(t, "others")
		at := rapid.IntRange(0, len(others)).Draw(t, "at")
		o.Keys = append(append(append([]string{}, others[:at]...), key), others[at:]...)
	case "touch":
		o.Exp = 1000
	}
	return o
}

func shortKey(k string) string {
	if len(k) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", k[:40], len(k))
	}
	return fmt.Sprintf("%q", k)
}

// keyClass names what kind of key it is.
func keyClass(k string) string {
	switch {
	case len(k) == 0:
		return "empty"
	case len(k) > 65535:
		return "over 65535 bytes"
	case len(k) > 250:
		return "over 250 bytes"
	case hx.LegalKey(k):
		return "legal"
	}
	return "bad bytes"
}

// C12: every key string against every operation.
func TestC12_Keys(t *testing.T) {
	hx.Check(t, 3000, 80000, func(t *rapid.T) {
		proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		r := newRig(nil, proto)
		defer r.close()
		c := r.c[proto]
		in := r.mc.Inspect()
		in.Set("sentinel", []byte("17"), 5, 0)
		in.Set("sentinel2", []byte("text"), 6, 4000)
		s1, s2 := in.Get("sentinel"), in.Get("sentinel2")
		m := hx.NewModel()
		m.Unsure["sentinel"], m.Unsure["sentinel2"] = true, true
		m.CheckState("sentinel", s1)
		m.CheckState("sentinel2", s2)
		// how many bytes asking for the version takes
		r.relay.Arm(hx.Fault{})
		if v := hx.Run(t, c, hx.Op{Kind: "version"}); v.Err != nil {
			t.Fatalf("version: %v", v)
		}
		vup, _ := r.relay.Counts()
		n := rapid.IntRange(1, 3).Draw(t, "calls")
		desc, class := "", ""
		for i := 0; i < n; i++ {
			key := anyKey().Filter(func(k string) bool { return k != "sentinel" && k != "sentinel2" && k != "nokey" }).Draw(t, "key")
			class = keyClass(key)
			if class == "bad bytes" && len(key) > hx.MaxAnyKey {
				key = key[:hx.MaxAnyKey]
				class = keyClass(key)
			}
			o := c12Op(t, key)
			// the binary protocol carries any bytes, but not any length
			refused := class != "legal" && !(proto == hx.Binary && class == "bad bytes")
			short := o
			short.Key, short.Keys = shortKey(key), nil
			d := fmt.Sprintf("%s.%s key=%s", proto, short, shortKey(key))
			desc += d + "; "
			r.relay.Arm(hx.Fault{})
			if refused {
				res := hx.Run(t, c, o)
				if res.Err == nil {
					t.Fatalf("%s: accepted", d)
				}
				if v := hx.Run(t, c, hx.Op{Kind: "version"}); v.Err != nil {
					t.Fatalf("%s: then version: %v", d, v)
				}
				if up, _ := r.relay.Counts(); up != vup {
					t.Fatalf("%s: returned %v but %d bytes were sent", d, res.Err, up-vup)
				}
			} else {
				if m.M[key] == nil && rapid.Bool().Draw(t, "planted") {
					po := hx.Op{Kind: "set", Key: key, Value: []byte("30"), Flags: hx.U32(9)}
					exp := m.Step(proto, po)
					if msg := m.CheckResult(proto, po, exp, hx.Run(t, c, po)); msg != "" {
						t.Fatalf("%s: planting it: %s", d, msg)
					}
					if msg := m.CheckState(key, in.GetAny(key)); msg != "" {
						t.Fatalf("%s: after planting it: %s", d, msg)
					}
				}
				exp := m.Step(proto, o)
				res := hx.Run(t, c, o)
				if msg := m.CheckResult(proto, o, exp, res); msg != "" {
					t.Fatalf("%s", msg)
				}
				if msg := m.CheckState(key, in.GetAny(key)); msg != "" {
					t.Fatalf("after %s -> %v: %s", d, res, msg)
				}
				if v := hx.Run(t, c, hx.Op{Kind: "version"}); v.Err != nil {
					t.Fatalf("%s: then version: %v", d, v)
				}
			}
			for k, s := range map[string]hx.State{"sentinel": s1, "sentinel2": s2} {
				if now := in.Get(k); now.Cas != s.Cas || string(now.Value) != string(s.Value) || now.Flags != s.Flags {
					t.Fatalf("%s: changed %q from %v to %v", d, k, s, now)
				}
			}
			hx.Count("keys: "+class+", "+proto, 1)
		}
		g := hx.Run(t, c, hx.Op{Kind: "getmulti", Keys: []string{"sentinel", "sentinel2", "nokey"}})
		if msg := m.CheckMulti(proto, []string{"sentinel", "sentinel2", "nokey"}, g.Items); g.Err != nil || msg != "" {
			t.Fatalf("%s: then getmulti: %v %s", desc, g, msg)
		}
		hx.Case(desc, class != "legal", "last key: "+class)
	})
}

// C12: the pools pass the refusal on and send nothing.
func TestC12_Pools(t *testing.T) {
	hx.Check(t, 500, 10000, func(t *rapid.T) {
		var api hx.API
		var nodes []*node
		if rapid.Bool().Draw(t, "replica") {
			r := newReplica(2, 1)
			defer r.close()
			api, nodes = r.pool, append(append([]*node{}, r.prim...), r.sec...)
		} else {
			s := newSingle([]string{"one", "two"}, []string{hx.Text, hx.Meta})
			defer s.close()
			api, nodes = s.pool, s.nodes
		}
		key := anyKey().Filter(func(k string) bool { return !hx.LegalKey(k) }).Draw(t, "key")
		o := c12Op(t, key)
		if o.Kind == "touch" {
			o.Kind = "delete"
		}
		if o.Kind == "getmulti" {
			o.Keys = []string{key} // other servers may be asked for other keys
		}
		d := fmt.Sprintf("%s key=%s", o.Kind, shortKey(key))
		var res hx.Result
		hx.Call(t, d, func() { res = hx.Do(api, o) })
		if res.Err == nil {
			t.Fatalf("pool: %s: accepted", d)
		}
		for _, n := range nodes {
			if v := hx.Run(t, n.c, hx.Op{Kind: "version"}); v.Err != nil {
				t.Fatalf("pool: %s: then version of %s: %v", d, n.name, v)
			}
		}
		for _, n := range nodes {
			up, _ := n.relay.Counts()
			want := len("version\r\n")
			if up != want {
				t.Fatalf("pool: %s: %d bytes were sent to %s", d, up-want, n.name)
			}
		}
		hx.Case("pool "+d, true, "pool key: "+keyClass(key))
	})
}
