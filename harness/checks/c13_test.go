package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"go.f110.dev/go-memcached/client"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// guarded is a slice inside a larger array whose every byte is remembered.
type guarded struct {
	slice  []byte
	array  []byte
	before []byte
}

// guard puts b into a larger array with pre bytes before and spare capacity
// behind it, and more beyond the capacity.
func guard(b []byte, pre, spare int) *guarded {
	if b == nil {
		return &guarded{}
	}
	a := hx.Fill(pre+len(b)+spare+8, 77)
	copy(a[pre:], b)
	g := &guarded{array: a, slice: a[pre : pre+len(b) : pre+len(b)+spare]}
	g.before = hx.Clone(a)
	return g
}

func (g *guarded) check(what string) string {
	if !bytes.Equal(g.array, g.before) {
		for i := range g.array {
			if g.array[i] != g.before[i] {
				return fmt.Sprintf("%s: byte %d of the caller's array changed from %#x to %#x (slice has %d bytes and capacity %d)", what, i, g.before[i], g.array[i], len(g.slice), cap(g.slice))
			}
		}
	}
	return ""
}

// scribble overwrites what the caller owns.
func (g *guarded) scribble() {
	for i := range g.array {
		g.array[i] ^= 0x5a
	}
}

// result is a returned item and what it was.
type result struct {
	it     *client.Item
	copy   client.Item
	origin string
}

func keep(it *client.Item, origin string) *result {
	c := *it
	c.Value, c.Flags = hx.Clone(it.Value), hx.Clone(it.Flags)
	c.Key = strings.Clone(it.Key)
	return &result{it: it, copy: c, origin: origin}
}

func (r *result) check() string {
	if r.it.Key != r.copy.Key || !bytes.Equal(r.it.Value, r.copy.Value) || !bytes.Equal(r.it.Flags, r.copy.Flags) || r.it.Cas != r.copy.Cas || r.it.Expiration != r.copy.Expiration || r.it.Server != r.copy.Server {
		return fmt.Sprintf("item returned by %s was %s and now is %s", r.origin, hx.ItemString(&r.copy), hx.ItemString(r.it))
	}
	return ""
}

// ruin changes everything the item gives access to.
func (r *result) ruin() {
	for _, b := range [][]byte{r.it.Value, r.it.Flags} {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0xff
		}
	}
	r.it.Key, r.it.Cas, r.it.Expiration = "ruined", 1, 1
}

// C13: nothing the caller holds changes, nothing returned changes.
func TestC13_Memory(t *testing.T) {
	hx.Check(t, 2000, 40000, func(t *rapid.T) {
		keys := hx.Keys(2, 4).Draw(t, "keys")
		target := rapid.SampledFrom([]string{hx.Text, hx.Meta, hx.Binary, "single", "replica"}).Draw(t, "target")
		seg := hx.Segments().Draw(t, "segments")
		var api hx.API
		var stateOf func(k string) []hx.State
		switch target {
		case "single":
			s := newSingle([]string{"one", "two", "three"}, hx.Protocols)
			defer s.close()
			for _, n := range s.nodes {
				n.relay.Segments(seg)
			}
			api = s.pool
			stateOf = func(k string) []hx.State { return []hx.State{s.owner(k).insp().Get(k)} }
		case "replica":
			r := newReplica(2, 1)
			defer r.close()
			for _, n := range r.prim {
				n.relay.Segments(seg)
			}
			api = r.pool
			stateOf = func(k string) []hx.State {
				return []hx.State{r.primary(k).insp().Get(k), r.secondary(k).insp().Get(k)}
			}
		default:
			r := newRig(seg, target)
			defer r.close()
			api = r.c[target]
			stateOf = func(k string) []hx.State { return []hx.State{r.mc.Inspect().Get(k)} }
		}
		cfg := histCfg{kinds: []string{"get", "get", "getmulti", "set", "set", "add", "replace", "delete", "incr"}, keys: keys, exps: hx.LongTTL(), values: rapid.OneOf(histValue(), hx.Value())}
		var held []*result
		var tokens []uint64
		var desc []string
		stores, reads, ruined := 0, 0, 0
		n := rapid.IntRange(2, 14).Draw(t, "length")
		for i := 0; i < n; i++ {
			o := cfg.drawOp(t, tokens)
			what := fmt.Sprintf("%s.%s", target, o)
			switch o.Kind {
			case "set", "add", "replace":
				if rapid.IntRange(0, 3).Draw(t, "emptyvalue") == 0 {
					o.Value = []byte{}
				}
				v := guard(o.Value, rapid.SampledFrom([]int{0, 1, 16}).Draw(t, "pre"), rapid.SampledFrom([]int{0, 1, 2, 3, 64}).Draw(t, "spare"))
				f := guard(o.Flags, rapid.SampledFrom([]int{0, 4}).Draw(t, "fpre"), rapid.SampledFrom([]int{0, 1, 4, 8}).Draw(t, "fspare"))
				it := &client.Item{Key: o.Key, Value: v.slice, Flags: f.slice, Expiration: o.Exp, Cas: o.Cas, Server: "mine"}
				was := *it
				var err error
				hx.Call(t, what, func() {
					switch o.Kind {
					case "set":
						err = api.Set(it)
					case "add":
						err = api.Add(it)
					case "replace":
						err = api.Replace(it)
					}
				})
				desc = append(desc, fmt.Sprintf("%s -> %s", what, hx.Kind(err)))
				if m := v.check(what + ": value"); m != "" {
					t.Fatalf("%s", m)
				}
				if m := f.check(what + ": flags"); m != "" {
					t.Fatalf("%s", m)
				}
				if it.Key != was.Key || it.Expiration != was.Expiration || it.Cas != was.Cas || it.Server != was.Server ||
					len(it.Value) != len(was.Value) || cap(it.Value) != cap(was.Value) || (it.Value == nil) != (was.Value == nil) || len(it.Flags) != len(was.Flags) || cap(it.Flags) != cap(was.Flags) || (it.Flags == nil) != (was.Flags == nil) ||
					reflect.ValueOf(it.Value).Pointer() != reflect.ValueOf(was.Value).Pointer() || reflect.ValueOf(it.Flags).Pointer() != reflect.ValueOf(was.Flags).Pointer() {
					t.Fatalf("%s: the caller's item changed from %+v to %+v", what, was, *it)
				}
				// The caller may reuse its memory at once.
				want := hx.Clone(o.Value)
				v.scribble()
				f.scribble()
				if err == nil {
					stores++
					for _, s := range stateOf(o.Key) {
						if o.Exp >= 0 && (!s.Exists || !bytes.Equal(s.Value, want) || s.Flags != hx.FlagWord(o.Flags)) {
							t.Fatalf("%s succeeded; after the caller reused its memory the server holds %v", what, s)
						}
					}
				}
			case "getmulti":
				ks := make([]string, len(o.Keys), len(o.Keys)+3)
				copy(ks, o.Keys)
				full := ks[:cap(ks)]
				var items []*client.Item
				var err error
				hx.Call(t, what, func() { items, err = api.GetMulti(ks...) })
				desc = append(desc, fmt.Sprintf("%s -> %d items", what, len(items)))
				if err != nil {
					t.Fatalf("%s: %v", what, err)
				}
				for j, k := range o.Keys {
					if ks[j] != k {
						t.Fatalf("%s: the caller's list of keys became %q", what, ks)
					}
				}
				for _, k := range full[len(ks):] {
					if k != "" {
						t.Fatalf("%s: wrote %q behind the caller's list of keys", what, k)
					}
				}
				for _, it := range items {
					for _, h := range held {
						if h.it == it {
							t.Fatalf("%s: returned an item that was returned before by %s", what, h.origin)
						}
					}
					s := stateOf(it.Key)[0]
					if !bytes.Equal(s.Value, it.Value) || s.Flags != hx.FlagWord(it.Flags) || s.Cas != it.Cas {
						t.Fatalf("%s: returned %s but the server holds %v", what, hx.ItemString(it), s)
					}
					held = append(held, keep(it, what))
					tokens = append(tokens, it.Cas)
					reads++
				}
			default:
				res := hx.Run(t, api, o)
				desc = append(desc, fmt.Sprintf("%s -> %s", what, res.Kind))
				if res.Item != nil {
					s := stateOf(o.Key)[0]
					if !bytes.Equal(s.Value, res.Item.Value) || s.Flags != hx.FlagWord(res.Item.Flags) || s.Cas != res.Item.Cas {
						t.Fatalf("%s: returned %s but the server holds %v", what, hx.ItemString(res.Item), s)
					}
					held = append(held, keep(res.Item, what))
					tokens = append(tokens, res.Item.Cas)
					reads++
				}
			}
			for _, h := range held {
				if m := h.check(); m != "" {
					t.Fatalf("after %s: %s", what, m)
				}
			}
			if len(held) > 0 && rapid.IntRange(0, 2).Draw(t, "ruin") == 0 {
				j := rapid.IntRange(0, len(held)-1).Draw(t, "which")
				h := held[j]
				h.ruin()
				ruined++
				held = append(held[:j], held[j+1:]...)
				for _, x := range held {
					if m := x.check(); m != "" {
						t.Fatalf("after changing the item that %s returned: %s", h.origin, m)
					}
				}
			}
		}
		hx.Case(strings.Join(desc, "; "), stores > 0 && reads > 1, "target:"+target)
		hx.Count("items stored", stores)
		hx.Count("items returned and watched", reads)
		hx.Count("returned items changed", ruined)
	})
}
