package checks

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// histCfg says what operations a generated history is made of.
type histCfg struct {
	kinds  []string
	keys   []string
	exps   *rapid.Generator[int]
	values *rapid.Generator[[]byte]
	// big makes a store exceed the item limit now and then.
	big bool
	// past are the stores drawn before, when they may be repeated.
	past map[string][]hx.Op
}

// numberish values make counters likely.
func numberish() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		return []byte(rapid.SampledFrom([]string{"0", "1", "9", "10", "99", "100", "4294967295", "4294967296", "9223372036854775800", "007", "5 "}).Draw(t, "number"))
	})
}

func histValue() *rapid.Generator[[]byte] {
	return rapid.OneOf(hx.SmallValue(), numberish(), numberish(), hx.Value())
}

func histExp() *rapid.Generator[int] {
	return rapid.OneOf(rapid.Just(0), hx.LongTTL(), hx.LongTTL(), rapid.SampledFrom([]int{-1, 1 << 30, 2147483647, 2592001, 1000000000, -100}))
}

// drawOp draws one operation. tokens are CAS tokens seen so far.
func (c histCfg) drawOp(t *rapid.T, tokens []uint64) hx.Op {
	o := hx.Op{Kind: rapid.SampledFrom(c.kinds).Draw(t, "op")}
	switch o.Kind {
	case "flush", "version":
		return o
	case "getmulti":
		n := rapid.IntRange(1, 6).Draw(t, "n")
		for i := 0; i < n; i++ {
			o.Keys = append(o.Keys, rapid.SampledFrom(c.keys).Draw(t, "key"))
		}
		return o
	}
	o.Key = rapid.SampledFrom(c.keys).Draw(t, "key")
	switch o.Kind {
	case "set", "add", "replace":
		o.Value = c.values.Draw(t, "value")
		if c.big && rapid.IntRange(0, 60).Draw(t, "toobig") == 60 {
			o.Value = hx.Fill(hx.OverLimit+rapid.IntRange(0, 5000).Draw(t, "over"), 1)
		}
		o.Flags = hx.FlagBytes().Draw(t, "flags")
		o.Exp = c.exps.Draw(t, "exp")
		if len(tokens) > 0 && rapid.IntRange(0, 2).Draw(t, "withcas") == 0 {
			// recent tokens are the interesting ones
			i := rapid.IntRange(0, len(tokens)-1).Draw(t, "token")
			o.Cas = tokens[len(tokens)-1-i]
		}
		if c.past != nil {
			// The same again, in part or in whole, as one storing from a cache
			// of one's own does.
			if p := c.past[o.Key]; len(p) > 0 && rapid.IntRange(0, 3).Draw(t, "again") == 0 {
				b := p[len(p)-1-rapid.IntRange(0, len(p)-1).Draw(t, "which")]
				o.Value = b.Value
				if rapid.IntRange(0, 3).Draw(t, "flagstoo") > 0 {
					o.Flags = b.Flags
				}
				if rapid.Bool().Draw(t, "exptoo") {
					o.Exp = b.Exp
				}
			}
			c.past[o.Key] = append(c.past[o.Key], o)
		}
	case "touch":
		o.Exp = c.exps.Draw(t, "exp")
	case "incr", "decr":
		o.Delta = rapid.OneOf(rapid.IntRange(0, 12), rapid.SampledFrom([]int{0, 1, 255, 65536, 4294967295, 4294967296, 1 << 40, 1<<63 - 1})).Draw(t, "delta")
		o.Exp = c.exps.Draw(t, "exp")
	}
	return o
}

// tokensOf collects the CAS tokens of a result.
func tokensOf(r hx.Result) (out []uint64) {
	if r.Item != nil && r.Item.Cas != 0 {
		out = append(out, r.Item.Cas)
	}
	for _, i := range r.Items {
		if i != nil && i.Cas != 0 {
			out = append(out, i.Cas)
		}
	}
	return out
}

// history collects the text of a case.
type history struct {
	lines []string
	kinds map[string]bool
	outs  map[string]bool
}

func (h *history) add(proto string, o hx.Op, r hx.Result) {
	if h.kinds == nil {
		h.kinds, h.outs = map[string]bool{}, map[string]bool{}
	}
	h.lines = append(h.lines, fmt.Sprintf("%s.%s -> %s", proto, o, r.Kind))
	h.kinds[o.Kind] = true
	h.outs[o.Kind+":"+r.Kind] = true
}

func (h *history) String() string { return strings.Join(h.lines, "; ") }

func (h *history) labels() (out []string) {
	for k := range h.outs {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var allKinds = []string{"get", "get", "getmulti", "set", "set", "add", "replace", "delete", "touch", "incr", "decr", "flush", "version"}
