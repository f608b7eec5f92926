package checks

import (
	"fmt"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// hammer has one writer store ascending numbers under each key, reading its
// own writes, while readers read them, and checks that nobody ever sees a
// number older than the last one stored before the read began, or newer than
// the last one begun when it ended. apis are used in turn: goroutine i takes
// apis[i%len(apis)]. It is long and simple where the generated histories are
// short and varied: a window of a microsecond needs thousands of tries.
func hammer(t *rapid.T, what string, apis []hx.API, keys []string, readers, rounds int, multi bool) {
	started, stored := make([]atomic.Int64, len(keys)), make([]atomic.Int64, len(keys))
	var writing atomic.Int64
	writing.Store(int64(len(keys)))
	var mu sync.Mutex
	bad := ""
	fail := func(format string, args ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if bad == "" {
			bad = fmt.Sprintf(format, args...)
		}
	}
	failed := func() bool { mu.Lock(); defer mu.Unlock(); return bad != "" }
	var reads atomic.Int64
	read := func(api hx.API, k int, who string) {
		lo := stored[k].Load()
		o := hx.Op{Kind: "get", Key: keys[k]}
		if multi && reads.Add(1)%5 == 0 {
			o = hx.Op{Kind: "getmulti", Keys: []string{keys[k]}}
		}
		res := hx.Do(api, o)
		hi := started[k].Load()
		switch {
		case o.Kind == "getmulti" && res.Err == nil && len(res.Items) == 1:
			res.Item = res.Items[0]
		case o.Kind == "getmulti" && res.Err == nil && len(res.Items) == 0, res.Kind == hx.NotFound:
			if lo > 0 {
				fail("%s: %s returned nothing after %d was stored", who, o, lo)
			}
			return
		case res.Err != nil:
			fail("%s: %s: %v", who, o, res)
			return
		}
		n, err := strconv.ParseInt(string(res.Item.Value), 10, 64)
		if err != nil || n < lo || n > hi || res.Item.Key != keys[k] || int64(hx.FlagWord(res.Item.Flags)) != n {
			fail("%s: %s returned %v; %d was stored before, the last one begun is %d", who, o, res, lo, hi)
		}
	}
	hx.Call(t, what, func() {
		var wg sync.WaitGroup
		for k := range keys {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer writing.Add(-1)
				api := apis[k%len(apis)]
				for i := 1; i <= rounds && !failed(); i++ {
					started[k].Store(int64(i))
					if res := hx.Do(api, hx.Op{Kind: "set", Key: keys[k], Value: []byte(strconv.Itoa(i)), Flags: hx.U32(uint32(i))}); res.Err != nil {
						fail("set %d: %v", i, res)
						return
					}
					stored[k].Store(int64(i))
					read(api, k, "the writer")
				}
			}()
		}
		for j := 0; j < readers; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; writing.Load() > 0 && !failed(); i++ {
					read(apis[(len(keys)+j)%len(apis)], (i+j)%len(keys), "a reader")
				}
			}()
		}
		wg.Wait()
	})
	if bad != "" {
		t.Fatalf("%s: %d keys, %d readers: %s", what, len(keys), readers, bad)
	}
	hx.Count("rounds of set and get", rounds*len(keys))
	hx.Case(fmt.Sprintf("hammer %s %d keys %d readers %v", what, len(keys), readers, multi), true, "hammer: "+what)
}

func hammerShape(t *rapid.T) (keys []string, readers int) {
	return []string{"ha", "hb", "hc"}[:rapid.IntRange(1, 3).Draw(t, "keys")], rapid.IntRange(1, 8).Draw(t, "readers")
}

// C09: many rounds on shared clients and pools.
func TestC09_Hammer(t *testing.T) {
	hx.Check(t, 12, 200, func(t *rapid.T) {
		keys, readers := hammerShape(t)
		var api hx.API
		what := rapid.SampledFrom([]string{hx.Text, hx.Meta, hx.Binary, "single pool", "replica pool"}).Draw(t, "what")
		switch what {
		case "single pool":
			s := newSingle([]string{"one", "two"}, []string{rapid.SampledFrom(hx.Protocols).Draw(t, "p1"), rapid.SampledFrom(hx.Protocols).Draw(t, "p2")})
			defer s.close()
			api = s.pool
		case "replica pool":
			r := newReplica(2, 1)
			defer r.close()
			api = r.pool
		default:
			r := newRig(nil, what)
			defer r.close()
			api = r.c[what]
		}
		hammer(t, what, []hx.API{api}, keys, readers, hx.Scale(300, 1000), true)
	})
}

// C24: many rounds through the router.
func TestC24_Hammer(t *testing.T) {
	hx.Check(t, 8, 150, func(t *rapid.T) {
		r := newRouted(t)
		defer r.close()
		keys, readers := hammerShape(t)
		var apis []hx.API
		for i := 0; i < len(keys)+readers; i++ {
			c := hx.MustDial(rapid.SampledFrom(hx.Protocols).Draw(t, "proto"), "router", "unix", r.addr)
			defer closeQuiet(c)
			apis = append(apis, c)
		}
		hammer(t, "router", apis, keys, readers, hx.Scale(300, 1000), false)
	})
}
