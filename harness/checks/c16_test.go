package checks

import (
	"fmt"
	"hash/crc32"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"go.f110.dev/go-memcached/client"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// named is a server that only has a name.
type named struct {
	client.Server
	name string
}

func (n *named) Name() string { return n.name }

func ringOf(names []string) *client.Ring {
	var s []client.Server
	for _, n := range names {
		s = append(s, &named{name: n})
	}
	return client.NewRing(s...)
}

// forge appends four bytes to prefix so that the CRC-32 of the result is want.
func forge(prefix string, want uint32) string {
	// run the register backwards over four bytes
	tab := crc32.IEEETable
	rev := func(top byte) int {
		for i, x := range tab {
			if byte(x>>24) == top {
				return i
			}
		}
		panic("crc table")
	}
	target := ^want
	var idx [4]int
	for i := 3; i >= 0; i-- {
		idx[i] = rev(byte(target >> 24))
		target = (target ^ tab[idx[i]]) << 8
	}
	reg := ^crc32.ChecksumIEEE([]byte(prefix))
	b := []byte(prefix)
	for i := 0; i < 4; i++ {
		c := byte(reg) ^ byte(idx[i])
		b = append(b, c)
		reg = reg>>8 ^ tab[byte(reg)^c]
	}
	return string(b)
}

// twins are pairs of names that share a point.
type twin struct {
	a, b  string
	point uint32
}

var (
	twinOnce sync.Once
	twinList []twin
)

func twins() []twin {
	twinOnce.Do(func() {
		owner := map[uint32]string{}
		for i := 0; i < 2500; i++ {
			name := fmt.Sprintf("cache%d", i)
			for _, h := range hx.Hashes(name) {
				if o, ok := owner[h]; ok && o != name {
					twinList = append(twinList, twin{o, name, h})
				}
				owner[h] = name
			}
		}
		if len(twinList) < 3 {
			hx.Infra("no colliding names found")
		}
	})
	return twinList
}

func serverName() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[a-z]{1,6}[0-9]{0,2}`),
		rapid.StringMatching(`(cache|primary|secondary)-[0-9]{1,3}`),
		rapid.SampledFrom([]string{"", "a", "a/1", "a/", "/", "0", "a/199", "ключ", "A", "host:11211", "10.0.0.1:11211", "\x00", "a b"}),
		rapid.StringN(1, 20, 60),
		rapid.Custom(func(t *rapid.T) string {
			// a host name in full, or longer
			n := rapid.SampledFrom([]int{40, 60, 63, 64, 65, 100, 128, 250, 256, 300, 1000}).Draw(t, "namelen")
			return strings.Repeat("memcached-", n/10) + rapid.StringMatching(`[a-z0-9.-]{1,9}`).Draw(t, "rest")
		}),
	)
}

// ringCase is a set of names and hashes worth asking for.
type ringCase struct {
	names []string
	ring  *hx.RefRing
	tie   bool
}

func drawNames(t *rapid.T, max int) ringCase {
	if rapid.IntRange(0, 14).Draw(t, "many") == 0 {
		max *= 5
	}
	names := rapid.SliceOfNDistinct(serverName(), 1, max, rapid.ID[string]).Draw(t, "names")
	c := ringCase{}
	if rapid.IntRange(0, 2).Draw(t, "twins") == 0 {
		tw := rapid.SampledFrom(twins()).Draw(t, "twin")
		c.tie = true
		keep := names[:0]
		for _, n := range names {
			if n != tw.a && n != tw.b {
				keep = append(keep, n)
			}
		}
		names = append(keep, tw.a, tw.b)
	}
	c.names, c.ring = names, hx.NewRefRing(names...)
	return c
}

func shuffled(t *rapid.T, names []string, label string) []string {
	return rapid.Permutation(names).Draw(t, label)
}

// drawKey draws a key, most of them aimed at a point of the ring.
func (c ringCase) drawKey(t *rapid.T) string {
	prefix := rapid.StringN(0, 12, 40).Draw(t, "prefix")
	switch rapid.IntRange(0, 4).Draw(t, "aim") {
	case 0:
		return hx.Key().Draw(t, "key")
	case 1:
		return forge(prefix, rapid.SampledFrom([]uint32{0, 1, 0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0x80000001}).Draw(t, "edge"))
	case 2:
		return forge(prefix, rapid.Uint32().Draw(t, "hash"))
	}
	name := rapid.SampledFrom(c.names).Draw(t, "owner")
	i := rapid.IntRange(0, 199).Draw(t, "point")
	h := hx.Hashes(name)[i]
	if c.tie && rapid.Bool().Draw(t, "tie") {
		for _, tw := range twins() {
			for _, n := range c.names {
				if n == tw.a {
					h = tw.point
				}
			}
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "extreme") == 0 {
		// the lowest or highest point of all
		var all []uint32
		for _, n := range c.names {
			all = append(all, hx.Hashes(n)...)
		}
		sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
		h = rapid.SampledFrom([]uint32{all[0], all[len(all)-1]}).Draw(t, "which")
	}
	return forge(prefix, h+uint32(rapid.IntRange(-1, 1).Draw(t, "off")))
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// C16: the pick is the reference's owner, for any order, every time.
func TestC16_Placement(t *testing.T) {
	hx.Check(t, 1500, 40000, func(t *rapid.T) {
		c := drawNames(t, 10)
		r1 := ringOf(c.names)
		n2 := shuffled(t, c.names, "order")
		r2 := ringOf(n2)
		exact, tied := 0, 0
		first := map[uint32]string{}
		n := rapid.IntRange(5, 60).Draw(t, "keys")
		for i := 0; i < n; i++ {
			k := c.drawKey(t)
			h := hx.KeyHash(k)
			owners := c.ring.Owners(h)
			var a, b string
			hx.Call(t, fmt.Sprintf("Pick(%q)", k), func() { a, b = r1.Pick(k).Name(), r2.Pick(k).Name() })
			if !has(owners, a) {
				t.Fatalf("names %q: key %q (hash %#x) is placed on %q, want %q", c.names, k, h, a, owners)
			}
			if a != b {
				t.Fatalf("key %q (hash %#x) is placed on %q with the names in order %q and on %q in order %q", k, h, a, c.names, b, n2)
			}
			if f, ok := first[h]; ok && f != a {
				t.Fatalf("names %q: keys with hash %#x are placed on %q and on %q", c.names, h, f, a)
			}
			first[h] = a
			if len(owners) > 1 {
				tied++
			}
			for _, o := range owners {
				for _, p := range hx.Hashes(o) {
					if p == h {
						exact++
					}
				}
			}
		}
		// Find and Each know exactly these servers.
		seen := map[string]int{}
		if err := r1.Each(func(s client.Server) error { seen[s.Name()]++; return nil }); err != nil {
			t.Fatalf("Each: %v", err)
		}
		for _, x := range c.names {
			if seen[x] != 1 {
				t.Fatalf("names %q: Each visited %q %d times", c.names, x, seen[x])
			}
			if s := r1.Find(x); s == nil || s.Name() != x {
				t.Fatalf("names %q: Find(%q) found %v", c.names, x, s)
			}
		}
		if len(seen) != len(c.names) {
			t.Fatalf("names %q: Each visited %v", c.names, seen)
		}
		hx.Count("keys placed", n)
		hx.Count("keys that hash exactly onto a point", exact)
		hx.Count("keys on a point that two servers share", tied)
		lab := "no shared points"
		if c.tie {
			lab = "two servers share a point"
		}
		hx.Case(fmt.Sprintf("%q %q %v", c.names, n2, first), exact > 0 || tied > 0, lab, fmt.Sprintf("servers: %d", len(c.names)))
	})
}

// C16: the pools place keys by the same function.
func TestC16_Pools(t *testing.T) {
	hx.Check(t, 60, 1500, func(t *rapid.T) {
		n := rapid.IntRange(1, 4).Draw(t, "servers")
		names := rapid.SliceOfNDistinct(rapid.StringMatching(`[a-z]{1,6}[0-9]{0,2}`), n, n, rapid.ID[string]).Draw(t, "names")
		var desc []string
		s := newSingle(names, hx.Protocols)
		for i := 0; i < 6; i++ {
			k := hx.Key().Draw(t, "key")
			if r := hx.Run(t, s.pool, hx.Op{Kind: "set", Key: k, Value: []byte(k)}); r.Err != nil {
				t.Fatalf("set: %v", r)
			}
			for _, x := range s.nodes {
				if st := x.insp().Get(k); st.Exists != (x == s.owner(k)) {
					t.Fatalf("single pool of %q: key %q belongs on %q; %q holds %v", names, k, s.owner(k).name, x.name, st)
				}
			}
			desc = append(desc, k)
		}
		s.close()
		m := rapid.IntRange(1, 4).Draw(t, "secondaries")
		sec := rapid.SliceOfNDistinct(rapid.StringMatching(`[a-z]{1,6}[0-9]{0,2}`), m, m, rapid.ID[string]).Draw(t, "secnames")
		r := newReplicaNames(names, sec)
		defer r.close()
		for i := 0; i < 6; i++ {
			k := hx.Key().Draw(t, "key2")
			if x := hx.Run(t, r.pool, hx.Op{Kind: "set", Key: k, Value: []byte(k)}); x.Err != nil {
				t.Fatalf("set: %v", x)
			}
			for _, x := range r.prim {
				if st := x.insp().Get(k); st.Exists != (x == r.primary(k)) {
					t.Fatalf("primaries %q: key %q belongs on %q; %q holds %v", names, k, r.primary(k).name, x.name, st)
				}
			}
			for _, x := range r.sec {
				if st := x.insp().Get(k); st.Exists != (x == r.secondary(k)) {
					t.Fatalf("secondaries %q: key %q belongs on %q; %q holds %v", sec, k, r.secondary(k).name, x.name, st)
				}
			}
			desc = append(desc, k)
		}
		hx.Case(fmt.Sprintf("pools %q %q %q", names, sec, desc), n > 1 || m > 1, "pools")
	})
}

// C17: adding a server moves keys to it only, removing one moves its own only.
func TestC17_Moves(t *testing.T) {
	hx.Check(t, 1500, 40000, func(t *rapid.T) {
		c := drawNames(t, 10)
		if len(c.names) < 2 {
			return
		}
		at := rapid.IntRange(0, len(c.names)-1).Draw(t, "extra")
		extra := c.names[at]
		less := append(append([]string{}, c.names[:at]...), c.names[at+1:]...)
		with, without := ringOf(shuffled(t, c.names, "order")), ringOf(shuffled(t, less, "order2"))
		moved := 0
		n := rapid.IntRange(10, 100).Draw(t, "keys")
		var first string
		for i := 0; i < n; i++ {
			k := c.drawKey(t)
			var a, b string
			hx.Call(t, fmt.Sprintf("Pick(%q)", k), func() { a, b = with.Pick(k).Name(), without.Pick(k).Name() })
			if a == extra {
				moved++
			} else if a != b {
				t.Fatalf("key %q (hash %#x): on %q among %q but on %q among %q: adding or removing %q moves it between other servers", k, hx.KeyHash(k), b, less, a, c.names, extra)
			}
			if i == 0 {
				first = k
			}
		}
		lab := "no shared points"
		if c.tie {
			lab = "two servers share a point"
		}
		hx.Count("keys placed twice", n)
		hx.Count("keys that moved", moved)
		hx.Case(fmt.Sprintf("%q +- %q keys %q...", less, extra, first), moved > 0 && moved < n, "moves, "+lab)
	})
}

// C17: everybody gets a share.
func TestC17_Shares(t *testing.T) {
	hx.Check(t, 100, 3000, func(t *rapid.T) {
		names := rapid.SliceOfNDistinct(serverName(), 1, 12, rapid.ID[string]).Draw(t, "names")
		r := ringOf(names)
		got := map[string]int{}
		const keys = 6000
		start := rapid.Uint32().Draw(t, "start")
		prefix := rapid.StringMatching(`[a-z]{0,6}`).Draw(t, "prefix")
		for i := 0; i < keys; i++ {
			got[r.Pick(forge(prefix, start+uint32(uint64(i)*(1<<32)/keys))).Name()]++
		}
		fair := float64(keys) / float64(len(names))
		for _, n := range names {
			if f := float64(got[n]); f < 0.62*fair || f > 1.45*fair {
				t.Fatalf("of %d evenly spread keys %q gets %d, fair would be %.0f (names %q)", keys, n, got[n], fair, strings.Join(names, ","))
			}
		}
		hx.Case(fmt.Sprintf("shares %q %v", names, got), len(names) > 1, fmt.Sprintf("shares of %d", len(names)))
	})
}

// drawMany makes a ring of up to hundreds of servers, with its keys from a
// seeded source.
func drawMany(t *rapid.T) ([]string, *rand.Rand) {
	n := rapid.SampledFrom([]int{20, 51, 64, 100, 127, 128, 129, 164, 200, 255, 256, 257, 328, 400}).Draw(t, "servers")
	form := rapid.SampledFrom([]string{"cache%d", "10.0.%d.1:11211", "%d", "memcached-%03d.example.org", "a/%d"}).Draw(t, "form")
	from := rapid.IntRange(0, 3000).Draw(t, "from")
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, fmt.Sprintf(form, from+i))
	}
	return names, rand.New(rand.NewSource(rapid.Int64().Draw(t, "seed")))
}

func manyKeys(r *rand.Rand, names []string, n int) (keys []string) {
	for i := 0; i < n; i++ {
		h := r.Uint32()
		switch r.Intn(4) {
		case 0:
			h = hx.Hashes(names[r.Intn(len(names))])[r.Intn(200)] + uint32(r.Intn(3)) - 1
		case 1:
			h = []uint32{0, 1, 0xffffffff, 0x80000000}[r.Intn(4)]
		}
		keys = append(keys, forge(strconv.Itoa(r.Intn(1000)), h))
	}
	return keys
}

// C16: rings of hundreds of servers.
func TestC16_Many(t *testing.T) {
	hx.Check(t, 15, 400, func(t *rapid.T) {
		names, r := drawMany(t)
		ring, ref := ringOf(names), hx.NewRefRing(names...)
		other := append([]string{}, names...)
		r.Shuffle(len(other), func(i, j int) { other[i], other[j] = other[j], other[i] })
		ring2 := ringOf(other)
		for _, k := range manyKeys(r, names, 150) {
			owners := ref.Owners(hx.KeyHash(k))
			a, b := ring.Pick(k).Name(), ring2.Pick(k).Name()
			if !has(owners, a) || a != b {
				t.Fatalf("%d servers %q ... %q: key %q (hash %#x) is placed on %q and, with the names in another order, on %q, want %q", len(names), names[0], names[len(names)-1], k, hx.KeyHash(k), a, b, owners)
			}
		}
		seen := map[string]int{}
		ring.Each(func(s client.Server) error { seen[s.Name()]++; return nil })
		for _, x := range names {
			if s := ring.Find(x); seen[x] != 1 || s == nil || s.Name() != x {
				t.Fatalf("%d servers: Each visited %q %d times, Find found %v", len(names), x, seen[x], s)
			}
		}
		hx.Count("keys placed", 150)
		hx.Case(fmt.Sprintf("%d servers %q ...", len(names), names[0]), true, "hundreds of servers")
	})
}

// C17: rings of hundreds of servers move and share alike.
func TestC17_Many(t *testing.T) {
	hx.Check(t, 15, 400, func(t *rapid.T) {
		names, r := drawMany(t)
		at := r.Intn(len(names))
		less := append(append([]string{}, names[:at]...), names[at+1:]...)
		with, without := ringOf(names), ringOf(less)
		moved := 0
		keys := manyKeys(r, names, 3000)
		for _, p := range hx.Hashes(names[at]) {
			keys = append(keys, forge("", p))
		}
		got := map[string]int{}
		for _, k := range keys {
			a, b := with.Pick(k).Name(), without.Pick(k).Name()
			if a == names[at] {
				moved++
			} else if a != b {
				t.Fatalf("%d servers: key %q (hash %#x) is on %q without %q and on %q with it", len(names), k, hx.KeyHash(k), b, names[at], a)
			}
		}
		even := 400 * len(names)
		start := r.Uint32()
		for i := 0; i < even; i++ {
			got[with.Pick(forge("k", start+uint32(uint64(i)*(1<<32)/uint64(even)))).Name()]++
		}
		for _, n := range names {
			if f := float64(got[n]); f < 0.55*400 || f > 1.6*400 {
				t.Fatalf("%d servers: of %d evenly spread keys %q gets %d, fair would be 400", len(names), even, n, got[n])
			}
		}
		hx.Count("keys placed twice", len(keys))
		hx.Count("keys that moved", moved)
		hx.Case(fmt.Sprintf("%d servers +- %q", len(names), names[at]), moved > 0, "hundreds of servers")
	})
}
