package checks

import (
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// runHistory drives generated operations through clients of one server and
// compares every outcome and the server's contents with the model.
func runHistory(t *rapid.T, r *rig, cfg histCfg, protos []string, max int) *history {
	m := hx.NewModel()
	h := &history{}
	var tokens []uint64
	n := rapid.IntRange(1, max).Draw(t, "length")
	version := r.mc.Inspect().Raw("version")
	for i := 0; i < n; i++ {
		p := rapid.SampledFrom(protos).Draw(t, "proto")
		o := cfg.drawOp(t, tokens)
		if o.Kind == "replace" && p == hx.Binary && rapid.Bool().Draw(t, "plainreplace") {
			o.Cas = 0
		}
		exp := m.Step(p, o)
		res := hx.Run(t, r.c[p], o)
		h.add(p, o, res)
		if msg := m.CheckResult(p, o, exp, res); msg != "" {
			t.Fatalf("step %d: %s\nhistory: %s", i, msg, h)
		}
		if msg := res.From(func(string) (string, string) { return "srv", p }); msg != "" {
			t.Fatalf("step %d: %s\nhistory: %s", i, msg, h)
		}
		if o.Kind == "version" && "VERSION "+res.Version != version {
			t.Fatalf("step %d: version via %s is %q, server says %q\nhistory: %s", i, p, res.Version, version, h)
		}
		tokens = append(tokens, tokensOf(res)...)
		for _, k := range cfg.keys {
			if msg := m.CheckState(k, r.mc.Inspect().Get(k)); msg != "" {
				t.Fatalf("step %d: after %s via %s -> %v: %s\nhistory: %s", i, o, p, res, msg, h)
			}
		}
	}
	return h
}

// C02: any history behaves like memcached.
func TestC02_History(t *testing.T) {
	hx.Check(t, 2000, 60000, func(t *rapid.T) {
		seg := hx.Segments().Draw(t, "segments")
		keys := hx.Keys(1, 4).Draw(t, "keys")
		protos := rapid.SampledFrom([][]string{hx.Protocols, hx.Protocols, {hx.Text}, {hx.Meta}, {hx.Binary}}).Draw(t, "protos")
		r := newRig(seg, protos...)
		defer r.close()
		cfg := histCfg{kinds: allKinds, keys: keys, exps: histExp(), values: histValue(), big: true, past: map[string][]hx.Op{}}
		h := runHistory(t, r, cfg, protos, 30)
		// Non-trivial: something was stored, an operation was refused for the
		// state it met, and at least three kinds of operation took part.
		refused := false
		for k := range h.outs {
			switch k {
			case "get:ItemNotFound", "add:ItemExists", "replace:ItemNotFound", "delete:ItemNotFound", "incr:ItemNotFound", "decr:ItemNotFound", "set:ItemExists", "incr:error", "decr:error", "set:error":
				refused = true
			}
		}
		stored := h.outs["set:ok"] || h.outs["add:ok"] || h.outs["incr:ok"]
		hx.Case(h.String(), refused && stored && len(h.kinds) >= 3, h.labels()...)
	})
}
