package checks

import (
	"bytes"
	"fmt"
	"strconv"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// plantedKey says where a key lives and what the server reports for it.
type planted struct {
	val   []byte
	flags uint32
	cas   uint64
}

// checkMulti compares a GetMulti answer with what was planted.
func checkMulti(keys []string, have map[string]planted, res hx.Result) string {
	if res.Err != nil {
		return fmt.Sprintf("error %v", res.Err)
	}
	want := map[string]int{}
	for _, k := range keys {
		want[k]++
	}
	got := map[string]int{}
	for _, it := range res.Items {
		if it == nil {
			return "nil item"
		}
		w, ok := have[it.Key]
		if !ok || want[it.Key] == 0 {
			return fmt.Sprintf("item %s was not there or not asked for", hx.ItemString(it))
		}
		if !bytes.Equal(it.Value, w.val) || len(it.Flags) != 4 || hx.FlagWord(it.Flags) != w.flags || it.Cas != w.cas {
			return fmt.Sprintf("item %s, server holds %s flags=%d cas=%d", hx.ItemString(it), hx.Q(w.val), w.flags, w.cas)
		}
		got[it.Key]++
	}
	for k, n := range want {
		_, ok := have[k]
		if ok && (got[k] < 1 || got[k] > n) {
			return fmt.Sprintf("key %q exists and was listed %d times, but was returned %d times", k, n, got[k])
		}
	}
	return ""
}

type multiTarget struct {
	name  string
	api   hx.API
	insp  func(key string) *hx.Inspector
	of    func(key string) (name, proto string)
	close func()
	relay []*hx.Relay
}

func multiTargets(t *rapid.T) multiTarget {
	switch k := rapid.SampledFrom([]string{hx.Text, hx.Meta, hx.Binary, "single", "replica"}).Draw(t, "target"); k {
	case "single":
		protos := rapid.SliceOfN(rapid.SampledFrom(hx.Protocols), 3, 3).Draw(t, "protos")
		s := newSingle([]string{"a", "b", "c"}, protos)
		var rel []*hx.Relay
		for _, n := range s.nodes {
			rel = append(rel, n.relay)
		}
		return multiTarget{k + fmt.Sprint(protos), s.pool, func(key string) *hx.Inspector { return s.owner(key).insp() }, func(key string) (string, string) { n := s.owner(key); return n.name, n.proto }, s.close, rel}
	case "replica":
		s := newReplica(2, 1)
		var rel []*hx.Relay
		for _, n := range s.prim {
			rel = append(rel, n.relay)
		}
		return multiTarget{k, s.pool, func(key string) *hx.Inspector { return s.primary(key).insp() }, func(key string) (string, string) { return s.primary(key).name, hx.Meta }, s.close, rel}
	default:
		r := newRig(nil, k)
		return multiTarget{k, r.c[k], func(string) *hx.Inspector { return r.mc.Inspect() }, func(string) (string, string) { return "srv", k }, r.close, []*hx.Relay{r.relay}}
	}
}

func setSegments(rel []*hx.Relay, seg []int) {
	for _, r := range rel {
		r.Segments(seg)
	}
}

// C04: GetMulti returns exactly what exists, in any mixture, and leaves the
// connection in step.
func TestC04_Mixture(t *testing.T) {
	hx.Check(t, 2000, 40000, func(t *rapid.T) {
		tg := multiTargets(t)
		defer tg.close()
		setSegments(tg.relay, hx.Segments().Draw(t, "segments"))
		pool := hx.Keys(1, 10).Draw(t, "keys")
		have := map[string]planted{}
		for _, k := range pool {
			if rapid.IntRange(0, 2).Draw(t, "exists") > 0 {
				v, f := hx.Value().Draw(t, "value"), hx.Flags32().Draw(t, "flags")
				in := tg.insp(k)
				in.Set(k, v, f, int64(rapid.SampledFrom([]int{0, 0, 5000}).Draw(t, "ttl")))
				have[k] = planted{v, f, in.Get(k).Cas}
			}
		}
		// calls on the same connections
		n := rapid.IntRange(1, 4).Draw(t, "calls")
		desc := tg.name
		hits, misses := 0, 0
		for i := 0; i < n; i++ {
			keys := rapid.SliceOfN(rapid.SampledFrom(pool), 1, 14).Draw(t, "list")
			for _, k := range keys {
				if _, ok := have[k]; ok {
					hits++
				} else {
					misses++
				}
			}
			res := hx.Run(t, tg.api, hx.Op{Kind: "getmulti", Keys: keys})
			if msg := checkMulti(keys, have, res); msg != "" {
				t.Fatalf("getmulti(%q) via %s, existing: %v: %s", keys, tg.name, have, msg)
			}
			if msg := res.From(tg.of); msg != "" {
				t.Fatalf("getmulti(%q) via %s: %s", keys, tg.name, msg)
			}
			k := rapid.SampledFrom(pool).Draw(t, "then")
			g := hx.Run(t, tg.api, hx.Op{Kind: "get", Key: k})
			w, ok := have[k]
			if !ok && g.Kind != hx.NotFound || ok && (g.Err != nil || !bytes.Equal(g.Item.Value, w.val) || g.Item.Key != k || g.Item.Cas != w.cas) {
				t.Fatalf("get(%q) after getmulti(%q) via %s: %v, existing: %v", k, keys, tg.name, g, have)
			}
			desc += fmt.Sprintf(" getmulti(%q)", keys)
		}
		label := "mixed"
		if misses == 0 {
			label = "all-hit"
		} else if hits == 0 {
			label = "all-miss"
		}
		hx.Case(desc+fmt.Sprint(len(have)), hits > 0 && misses > 0, label, "target:"+tg.name)
	})
}

// Large lists: many keys, long keys, large values.
func TestC04_Large(t *testing.T) {
	hx.Check(t, 60, 1200, func(t *rapid.T) {
		tg := multiTargets(t)
		defer tg.close()
		klen := rapid.SampledFrom([]int{8, 40, 250}).Draw(t, "keylen")
		count := rapid.SampledFrom([]int{40, 100, 101, 255, 256, 257, 1000, 1024, 1025, 4000, 6000, 20000}).Draw(t, "count")
		size := rapid.SampledFrom([]int{0, 1, 10, 100, 4090, 10000, 100000}).Draw(t, "size")
		for count*size > 60<<20 {
			size /= 10
		}
		// Runs of hits and of misses, over and over.
		runs := rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 3, 7, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 250, 256, 512, 1000, 5000}), 1, 6).Draw(t, "runs")
		hit := rapid.Bool().Draw(t, "hitfirst")
		run, left := 0, runs[0]
		have := map[string]planted{}
		var keys []string
		for i := 0; i < count; i++ {
			k := "k" + strconv.Itoa(i) + "-"
			for len(k) < klen {
				k += "x"
			}
			keys = append(keys, k)
			if left == 0 {
				hit = !hit
				run++
				left = runs[run%len(runs)]
			}
			left--
			if hit {
				v := hx.Fill(size, byte(i))
				in := tg.insp(k)
				in.Set(k, v, uint32(i), 0)
				have[k] = planted{v, uint32(i), in.Get(k).Cas}
			}
		}
		res := hx.Run(t, tg.api, hx.Op{Kind: "getmulti", Keys: keys})
		if msg := checkMulti(keys, have, res); msg != "" {
			t.Fatalf("getmulti of %d keys of %d bytes, existing or not in runs of %v, with %d byte values, via %s: %s", count, klen, runs, size, tg.name, msg)
		}
		k := keys[rapid.IntRange(0, count-1).Draw(t, "then")]
		g := hx.Run(t, tg.api, hx.Op{Kind: "get", Key: k})
		if w, ok := have[k]; !ok && g.Kind != hx.NotFound || ok && (g.Err != nil || !bytes.Equal(g.Item.Value, w.val)) {
			t.Fatalf("get(%q) after getmulti of %d keys via %s: %v", k, count, tg.name, g)
		}
		hx.Case(fmt.Sprintf("large %s count=%d keylen=%d size=%d runs=%v", tg.name, count, klen, size, runs), true, "large", fmt.Sprintf("request>%dk", count*klen/65536*64))
	})
}
