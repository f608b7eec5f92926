package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"go.f110.dev/go-memcached/client"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

const routerAddr = "127.0.0.1:8090"

// entry is one server of a configuration file.
type entry struct {
	Name string `json:"name"`
	Host string `json:"host"`
	Port int    `json:"port"`
	mc   *hx.Memcached
}

// backend is a memcached that a configuration may name.
type backend struct {
	hosts []string // how to write its host
	port  int
	mc    *hx.Memcached
}

var (
	backendsOnce sync.Once
	backendsAll  []backend
	ownNet       bool
)

// backends: the same ports on several hosts and several ports on one host.
func backends() []backend {
	backendsOnce.Do(func() {
		ownNet = hx.PrivateNetwork()
		hosts := []string{"127.0.0.1", "127.0.0.2", "127.1.2.3"}
		ports := []int{11211, 11212, 21211}
		if !ownNet {
			// Shared with the other shards and whatever else runs here.
			shard, _ := hx.Shard()
			hosts = []string{"127.0.0.1", fmt.Sprintf("127.0.%d.2", shard+1), fmt.Sprintf("127.0.%d.3", shard+1)}
			for i := range ports {
				ports[i] = 21000 + shard*10 + i
			}
		}
		for i, h := range hosts {
			for j, p := range ports {
				if i == 2 && j == 2 {
					continue
				}
				m := hx.NewMemcachedAt(h, p)
				if m == nil {
					continue
				}
				b := backend{hosts: []string{h}, port: p, mc: m}
				if i == 0 {
					b.hosts = append(b.hosts, "localhost")
				}
				backendsAll = append(backendsAll, b)
			}
		}
		if l, err := net.Listen("tcp", "[::1]:0"); err == nil {
			l.Close()
			if m := hx.NewMemcachedAt("::1", ports[0]); m != nil {
				backendsAll = append(backendsAll, backend{hosts: []string{"::1", "[::1]"}, port: ports[0], mc: m})
			}
		}
		if len(backendsAll) < 6 {
			hx.Infra("only %d backends", len(backendsAll))
		}
	})
	return backendsAll
}

// routerProc is a running router program.
type routerProc struct {
	cmd  *exec.Cmd
	out  *bytes.Buffer
	done chan struct{}
	lock *os.File
}

func startRouter(conf []byte) *routerProc {
	p := &routerProc{out: &bytes.Buffer{}, done: make(chan struct{})}
	if !ownNet {
		f, err := os.OpenFile("/tmp/.hx-port-8090", os.O_CREATE|os.O_RDWR, 0o666)
		if err != nil {
			hx.Infra("lock: %v", err)
		}
		if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
			hx.Infra("lock: %v", err)
		}
		p.lock = f
	}
	if c, err := net.Dial("tcp", routerAddr); err == nil {
		c.Close()
		hx.Infra("something else listens on %s", routerAddr)
	}
	file := filepath.Join(hx.Scratch(), "conf.yaml")
	if err := os.WriteFile(file, conf, 0o600); err != nil {
		hx.Infra("conf: %v", err)
	}
	p.cmd = exec.Command(os.Getenv("HX_ROUTER"), "-conf", file)
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	if err := hx.StartChild(p.cmd); err != nil {
		hx.Infra("router: %v", err)
	}
	go func() { p.cmd.Wait(); close(p.done) }()
	return p
}

func (p *routerProc) alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

// ready waits until the router accepts connections.
func (p *routerProc) ready() bool {
	return hx.WaitFor(hx.CallLimit(), func() bool {
		if !p.alive() {
			return true
		}
		c, err := net.Dial("tcp", routerAddr)
		if err == nil {
			c.Close()
		}
		return err == nil
	}) && p.alive()
}

func (p *routerProc) stop() {
	p.cmd.Process.Kill()
	<-p.done
	if p.lock != nil {
		p.lock.Close()
	}
}

// drawName makes a server name that YAML can carry.
func drawName() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[a-z]{1,6}-[0-9]`),
		rapid.SampledFrom([]string{"primary-1", "secondary-1", "primary-2", "a", "A", "10.0.0.1:11211", "x/1", "ключ", "with space", "quote\"d", "#1", "k: v", "0", "007", "1e3", "~x", "- a", "tab\there", "日本", "null-ish", "true?"}),
		rapid.StringMatching(`[ -~]{1,20}`),
	)
}

func quoted(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func plain(s string) bool {
	for i, c := range s {
		if !(c >= 'a' && c <= 'z' || i > 0 && (c >= '0' && c <= '9' || c == '-')) {
			return false
		}
	}
	switch s {
	case "", "y", "n", "yes", "no", "on", "off", "true", "false", "null":
		return false
	}
	return true
}

// drawYAML writes the configuration in one of the ways YAML knows.
func drawYAML(t *rapid.T, prim, sec []entry) []byte {
	if rapid.IntRange(0, 5).Draw(t, "json") == 0 {
		b, _ := json.Marshal(map[string][]entry{"primary": prim, "secondary": sec})
		return b
	}
	str := func(s string) string {
		switch {
		case plain(s) && rapid.Bool().Draw(t, "plain"):
			return s
		case !strings.ContainsAny(s, "\t") && rapid.Bool().Draw(t, "single"):
			return "'" + strings.ReplaceAll(s, "'", "''") + "'"
		}
		return quoted(s)
	}
	host := func(s string) string {
		if strings.ContainsAny(s, ":[") || rapid.IntRange(0, 3).Draw(t, "hostq") == 0 {
			return quoted(s)
		}
		return s
	}
	style := rapid.IntRange(0, 2).Draw(t, "style")
	section := func(name string, es []entry) string {
		b := name + ":\n"
		for _, e := range es {
			f := []string{"name: " + str(e.Name), "host: " + host(e.Host), "port: " + strconv.Itoa(e.Port)}
			f = rapid.Permutation(f).Draw(t, "fields")
			switch style {
			case 0:
				b += "  - " + strings.Join(f, "\n    ") + "\n"
			case 1:
				b += "- { " + strings.Join(f, ", ") + " }  # a comment\n"
			case 2:
				b += "-\n  " + strings.Join(f, "\n  ") + "\n\n"
			}
		}
		return b
	}
	parts := []string{section("primary", prim), section("secondary", sec)}
	if rapid.Bool().Draw(t, "secondaryfirst") {
		parts[0], parts[1] = parts[1], parts[0]
	}
	out := strings.Join(parts, rapid.SampledFrom([]string{"", "\n", "# servers\n"}).Draw(t, "between"))
	if rapid.IntRange(0, 3).Draw(t, "header") == 0 {
		out = "---\n" + out
	}
	if rapid.IntRange(0, 5).Draw(t, "crlf") == 0 {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	return []byte(strings.TrimRight(out, rapid.SampledFrom([]string{"", "\n"}).Draw(t, "trim")))
}

func drawEntries(t *rapid.T, what string, bs []backend) []entry {
	names := rapid.SliceOfNDistinct(drawName(), len(bs), len(bs), rapid.ID[string]).Draw(t, what+"names")
	var out []entry
	for i, b := range bs {
		out = append(out, entry{Name: names[i], Host: rapid.SampledFrom(b.hosts).Draw(t, "host"), Port: b.port, mc: b.mc})
	}
	return out
}

func byName(es []entry, ring *hx.RefRing, key string) *hx.Memcached {
	o := ring.Owner(key)
	for _, e := range es {
		if e.Name == o {
			return e.mc
		}
	}
	panic(o)
}

func entryRing(es []entry) *hx.RefRing {
	var n []string
	for _, e := range es {
		n = append(n, e.Name)
	}
	return hx.NewRefRing(n...)
}

// C25: the program serves the topology of its file.
func TestC25_Router(t *testing.T) {
	hx.Check(t, 200, 8000, func(t *rapid.T) {
		bs := rapid.Permutation(backends()).Draw(t, "backends")
		np := rapid.IntRange(1, 4).Draw(t, "primaries")
		ns := rapid.IntRange(1, 4).Draw(t, "secondaries")
		shared := rapid.IntRange(0, 7).Draw(t, "shared") == 0
		prim := drawEntries(t, "p", bs[:np])
		var sec []entry
		if shared {
			sec = drawEntries(t, "s", bs[np-1:np-1+ns])
		} else {
			sec = drawEntries(t, "s", bs[np:np+ns])
		}
		if rapid.IntRange(0, 2).Draw(t, "samenames") == 0 {
			// the lists may use the same names for different servers
			for i := range sec {
				if i < len(prim) {
					sec[i].Name = prim[len(prim)-1-i].Name
				} else {
					sec[i].Name = fmt.Sprintf("another %d", i)
				}
			}
		}
		for _, b := range bs {
			b.mc.Inspect().FlushAll()
		}
		conf := drawYAML(t, prim, sec)
		desc := fmt.Sprintf("%q", conf)
		pr, sr := entryRing(prim), entryRing(sec)
		p := startRouter(conf)
		defer func() { p.stop() }()
		if !p.ready() {
			t.Fatalf("%s: the router does not serve: %s", desc, p.out)
		}
		keys := rapid.SliceOfNDistinct(rapid.OneOf(rapid.StringMatching(`[a-z0-9:_-]{1,12}`), hx.Key()), 4, 24, rapid.ID[string]).Draw(t, "keys")
		m := hx.NewModel()
		clients := map[string]client.Server{}
		dial := func() {
			for _, proto := range hx.Protocols {
				c, err := hx.Dial(proto, "router", "tcp", routerAddr)
				if err != nil {
					t.Fatalf("%s: %s client: %v", desc, proto, err)
				}
				clients[proto] = c
			}
		}
		hangup := func() {
			for _, c := range clients {
				closeQuiet(c)
			}
		}
		dial()
		defer func() { hangup() }()
		used := map[*hx.Memcached]bool{}
		check := func(what string) {
			for _, k := range keys {
				a, b := byName(prim, pr, k), byName(sec, sr, k)
				used[a], used[b] = true, true
				if msg := m.CheckState(k, a.Inspect().Get(k)); msg != "" {
					t.Fatalf("%s: %s: primary of %q: %s", desc, what, k, msg)
				}
				if x, y := a.Inspect().Get(k), b.Inspect().Get(k); !sameState(x, y) {
					t.Fatalf("%s: %s: %q: primary has %v, secondary has %v", desc, what, k, x, y)
				}
				for _, o := range bs {
					if o.mc == a || o.mc == b {
						continue
					}
					if s := o.mc.Inspect().Get(k); s.Exists {
						t.Fatalf("%s: %s: %q is on %s", desc, what, k, o.mc.Addr)
					}
				}
			}
		}
		do := func(proto string, o hx.Op) {
			exp := m.Step(proto, o)
			res := hx.Run(t, clients[proto], o)
			if msg := m.CheckResult(proto, o, exp, res); msg != "" {
				t.Fatalf("%s: %s (router: %s)", desc, msg, p.out)
			}
		}
		for i, k := range keys {
			do(hx.Protocols[i%3], hx.Op{Kind: "set", Key: k, Value: []byte(fmt.Sprintf("value %d", i)), Flags: hx.U32(uint32(i) << 20), Exp: []int{0, 5000}[i%2]})
		}
		check("after sets")
		n := rapid.IntRange(0, 15).Draw(t, "length")
		for i := 0; i < n; i++ {
			proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
			cfg := histCfg{kinds: routedKinds[proto], keys: keys, exps: hx.LongTTL(), values: histValue()}
			do(proto, cfg.drawOp(t, nil))
		}
		if n > 0 {
			check("after a history")
		}
		if rapid.Bool().Draw(t, "restart") {
			// Another order of the entries is the same topology.
			hangup()
			p.stop()
			prim = rapid.Permutation(prim).Draw(t, "primorder")
			sec = rapid.Permutation(sec).Draw(t, "secorder")
			conf = drawYAML(t, prim, sec)
			desc += fmt.Sprintf(" then %q", conf)
			p = startRouter(conf)
			if !p.ready() {
				t.Fatalf("%s: the router does not serve: %s", desc, p.out)
			}
			dial()
			for _, k := range keys {
				do(rapid.SampledFrom(hx.Protocols).Draw(t, "proto"), hx.Op{Kind: "get", Key: k})
			}
			do(hx.Text, hx.Op{Kind: "getmulti", Keys: keys})
		}
		if !p.alive() {
			t.Fatalf("%s: the router ended: %s", desc, p.out)
		}
		hx.Case(desc, len(prim)+len(sec) > 2 && len(used) > 2, fmt.Sprintf("primaries: %d", np), fmt.Sprintf("secondaries: %d", ns))
	})
}

// C25: a backend that was down is used again when it is back.
func TestC25_Recovers(t *testing.T) {
	hx.Check(t, 2, 60, func(t *rapid.T) {
		bs := rapid.Permutation(backends()).Draw(t, "backends")
		np := rapid.IntRange(1, 3).Draw(t, "primaries")
		ns := rapid.IntRange(1, 3).Draw(t, "secondaries")
		prim, sec := drawEntries(t, "p", bs[:np]), drawEntries(t, "s", bs[np:np+ns])
		for _, b := range bs {
			b.mc.Inspect().FlushAll()
		}
		conf := drawYAML(t, prim, sec)
		desc := fmt.Sprintf("%q", conf)
		pr, sr := entryRing(prim), entryRing(sec)
		p := startRouter(conf)
		defer func() { p.stop() }()
		if !p.ready() {
			t.Fatalf("%s: the router does not serve: %s", desc, p.out)
		}
		keys := rapid.SliceOfNDistinct(rapid.StringMatching(`[a-z0-9:_-]{1,12}`), 4, 12, rapid.ID[string]).Draw(t, "keys")
		// A client for each call: the router ends a connection whose request
		// it cannot serve.
		call := func(proto string, o hx.Op) (r hx.Result) {
			c, err := hx.Dial(proto, "router", "tcp", routerAddr)
			if err != nil {
				t.Fatalf("%s: %s client: %v (%s)", desc, proto, err, p.out)
			}
			defer closeQuiet(c)
			return hx.Run(t, c, o)
		}
		use := func(when string, limit time.Duration) {
			for i, k := range keys {
				o := hx.Op{Kind: "set", Key: k, Value: []byte(fmt.Sprintf("%s %d", when, i)), Flags: hx.U32(uint32(i) << 20)}
				proto := hx.Protocols[i%3]
				var s, g hx.Result
				if !hx.WaitFor(limit, func() bool {
					s = call(proto, o)
					g = call(hx.Protocols[(i+1)%3], hx.Op{Kind: "get", Key: k})
					return s.Err == nil && g.Err == nil
				}) {
					t.Fatalf("%s: %s: %s: set of %q: %v, get: %v (%s)", desc, when, proto, k, s, g, p.out)
				}
				if string(g.Item.Value) != string(o.Value) || hx.FlagWord(g.Item.Flags) != hx.FlagWord(o.Flags) {
					t.Fatalf("%s: %s: get of %q returned %v, want %v", desc, when, k, g, o)
				}
				a, b := byName(prim, pr, k).Inspect().Get(k), byName(sec, sr, k).Inspect().Get(k)
				if string(a.Value) != string(o.Value) || !sameState(a, b) {
					t.Fatalf("%s: %s: %q: primary has %v, secondary has %v, want %v", desc, when, k, a, b, o)
				}
			}
		}
		use("at first", 0)
		all := append(append([]entry{}, prim...), sec...)
		for round := rapid.IntRange(1, 2).Draw(t, "outages"); round > 0; round-- {
			down := rapid.SliceOfNDistinct(rapid.IntRange(0, len(all)-1), 1, len(all), rapid.ID[int]).Draw(t, "down")
			calls := rapid.IntRange(0, 4).Draw(t, "calls")
			pause := rapid.SampledFrom([]int{0, 0, 300, 1500}).Draw(t, "pause_ms")
			desc += fmt.Sprintf(" then %v down for %d ms with %d calls", down, pause, calls)
			for _, i := range down {
				all[i].mc.Stop()
			}
			for i := 0; i < calls; i++ {
				call(rapid.SampledFrom(hx.Protocols).Draw(t, "proto"), hx.Op{Kind: rapid.SampledFrom([]string{"get", "set"}).Draw(t, "op"), Key: rapid.SampledFrom(keys).Draw(t, "key"), Value: []byte("lost")})
			}
			time.Sleep(time.Duration(pause) * time.Millisecond)
			for _, i := range down {
				all[i].mc.Start()
			}
			use(fmt.Sprintf("after outage %d", round), longWait)
		}
		if !p.alive() {
			t.Fatalf("%s: the router ended: %s", desc, p.out)
		}
		hx.Case("recovers "+desc, true, "outages of backends")
	})
}
