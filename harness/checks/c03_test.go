package checks

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// C03: histories dense in reads and conditional sets.
func TestC03_History(t *testing.T) {
	hx.Check(t, 1500, 50000, func(t *rapid.T) {
		seg := hx.Segments().Draw(t, "segments")
		keys := hx.Keys(1, 2).Draw(t, "keys")
		r := newRig(seg, hx.Protocols...)
		defer r.close()
		m := hx.NewModel()
		h := &history{}
		insp := r.mc.Inspect()
		cfg := histCfg{kinds: []string{"get", "getmulti", "get", "getmulti", "casset", "casset", "casset", "set", "add", "replace", "delete", "touch", "incr"},
			keys: keys, exps: rapid.SampledFrom([]int{0, 0, 5000, -1}), values: rapid.OneOf(hx.SmallValue(), numberish())}
		type tok struct {
			key string
			cas uint64
		}
		var tokens []tok
		n := rapid.IntRange(3, 24).Draw(t, "length")
		stale, fresh := 0, 0
		for i := 0; i < n; i++ {
			p := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
			o := hx.Op{Kind: rapid.SampledFrom(cfg.kinds).Draw(t, "kind")}
			switch o.Kind {
			case "casset":
				if len(tokens) == 0 {
					continue
				}
				// mostly the last token of some key, sometimes an older one, sometimes
				// one of the other key
				j := rapid.IntRange(0, len(tokens)-1).Draw(t, "token")
				tk := tokens[len(tokens)-1-j]
				cfg.keys = []string{tk.key}
				if rapid.IntRange(0, 9).Draw(t, "otherkey") == 9 {
					cfg.keys = keys
				}
				cfg.kinds, o.Kind = []string{"set"}, "set"
				o = cfg.drawOp(t, nil)
				o.Cas = tk.cas
				cfg.keys = keys
			default:
				cfg.kinds = []string{o.Kind}
				o = cfg.drawOp(t, nil)
			}
			cfg.kinds = []string{"get", "getmulti", "get", "getmulti", "casset", "casset", "casset", "set", "add", "replace", "delete", "touch", "incr"}
			{
				exp := m.Step(p, o)
				res := hx.Run(t, r.c[p], o)
				h.add(p, o, res)
				if msg := m.CheckResult(p, o, exp, res); msg != "" {
					t.Fatalf("step %d: %s\nhistory: %s", i, msg, h)
				}
				if o.Kind == "set" && o.Cas != 0 {
					if res.Err == nil {
						fresh++
					} else {
						stale++
					}
				}
				if res.Item != nil {
					tokens = append(tokens, tok{res.Item.Key, res.Item.Cas})
				}
				for _, it := range res.Items {
					tokens = append(tokens, tok{it.Key, it.Cas})
				}
			}
			for _, k := range keys {
				if msg := m.CheckState(k, insp.Get(k)); msg != "" {
					t.Fatalf("step %d: after %s via %s: %s\nhistory: %s", i, o, p, msg, h)
				}
			}
		}
		labels := h.labels()
		if stale > 0 {
			labels = append(labels, "refused-conditional-set")
		}
		if fresh > 0 {
			labels = append(labels, "accepted-conditional-set")
		}
		hx.Case(h.String(), stale+fresh > 0, labels...)
	})
}

// Tokens that need all 64 bits: a scripted server hands out a token; the
// client has to report it as it is and to send it back as it is.
func TestC03_WideTokens(t *testing.T) {
	hx.Check(t, 800, 25000, func(t *rapid.T) {
		p := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		multi := rapid.Bool().Draw(t, "multi")
		n := rapid.IntRange(1, 4).Draw(t, "n")
		key := hx.Key().Draw(t, "key")
		cas := map[string]uint64{}
		keys := []string{key}
		gen := rapid.OneOf(rapid.SampledFrom([]uint64{1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}), rapid.Uint64Range(1, 1<<64-1))
		cas[key] = gen.Draw(t, "cas")
		if multi {
			for i := 1; i < n; i++ {
				k := hx.Key().Draw(t, "key")
				if cas[k] == 0 {
					cas[k] = gen.Draw(t, "cas")
					keys = append(keys, k)
				}
			}
		}
		var got uint64 // token the server received
		exists := rapid.Bool().Draw(t, "changed")
		fs := hx.NewFakeServer(hx.Script(func(q *hx.Req) ([]byte, bool) {
			if q.Binary {
				switch q.Opcode {
				case 0x00, 0x09:
					return hx.BinReply(q.Opcode, 0, q.Opaque, cas[q.Key], []byte{0, 0, 0, 1}, "", []byte("v")), true
				case 0x0c, 0x0d:
					return hx.BinReply(q.Opcode, 0, q.Opaque, cas[q.Key], []byte{0, 0, 0, 1}, q.Key, []byte("v")), true
				case 0x0a:
					return hx.BinReply(q.Opcode, 0, q.Opaque, 0, nil, "", nil), true
				case 0x01:
					got = q.Cas
					if exists {
						return hx.BinReply(q.Opcode, 2, q.Opaque, 0, nil, "", []byte("Data exists for key.")), true
					}
					return hx.BinReply(q.Opcode, 0, q.Opaque, 5, nil, "", nil), true
				}
				return nil, false
			}
			switch q.Cmd {
			case "gets":
				var b []byte
				for _, k := range q.Args {
					b = append(b, fmt.Sprintf("VALUE %s 1 1 %d\r\nv\r\n", k, cas[k])...)
				}
				return append(b, "END\r\n"...), true
			case "mg":
				b := "VA 1"
				for _, f := range q.Args[1:] {
					switch f[0] {
					case 'f':
						b += " f1"
					case 'c':
						b += fmt.Sprintf(" c%d", cas[q.Key])
					case 't':
						b += " t-1"
					case 'k':
						b += " k" + q.Key
					case 's':
						b += " s1"
					}
				}
				return []byte(b + "\r\nv\r\n"), true
			case "mn":
				return []byte("MN\r\n"), true
			case "cas":
				fmt.Sscan(q.Args[4], &got)
				if exists {
					return []byte("EXISTS\r\n"), true
				}
				return []byte("STORED\r\n"), true
			case "ms":
				for _, f := range q.Args[2:] {
					if f[0] == 'C' {
						fmt.Sscan(f[1:], &got)
					}
				}
				if exists {
					return []byte("EX\r\n"), true
				}
				return []byte("HD\r\n"), true
			}
			return nil, false
		}))
		defer fs.Close()
		c := hx.MustDial(p, "srv", "unix", fs.Addr)
		defer closeQuiet(c)
		op := hx.Op{Kind: "get", Key: key}
		if multi {
			op = hx.Op{Kind: "getmulti", Keys: keys}
		}
		res := hx.Run(t, c, op)
		if res.Err != nil {
			t.Fatalf("%s via %s: %v", op, p, res)
		}
		items := res.Items
		if !multi {
			items = append(items, res.Item)
		}
		if len(items) != len(keys) {
			t.Fatalf("%s via %s: %v", op, p, res)
		}
		for _, it := range items {
			if it.Cas != cas[it.Key] {
				t.Fatalf("%s via %s: %q has token %d, server said %d", op, p, it.Key, it.Cas, cas[it.Key])
			}
		}
		item := items[len(items)-1]
		want := item.Cas
		var err error
		hx.Call(t, "set", func() { err = c.Set(item) })
		if got != want {
			t.Fatalf("set via %s of an item read with token %d sent token %d", p, want, got)
		}
		wantKind := hx.OK
		if exists {
			wantKind = hx.Exists
		}
		if hx.Kind(err) != wantKind {
			t.Fatalf("set with token via %s returned %v, want %s", p, err, wantKind)
		}
		label := "token<2^32"
		if cas[key] >= 1<<32 {
			label = "token>=2^32"
		}
		hx.Case(fmt.Sprintf("scripted %s %s tokens=%v changed=%v", p, op, cas, exists), true, label)
	})
}
