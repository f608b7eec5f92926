package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"go.f110.dev/go-memcached/server"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// scripted answers the requests of each connection (told by the first letter
// of the keys when there are several) from a list.
type scripted struct {
	mu    sync.Mutex
	lists map[byte][]hx.Answer
	one   bool
	out   string
	delay time.Duration
}

func (s *scripted) ServeRequest(r *server.Request) ([]*server.Response, error) {
	time.Sleep(s.delay)
	s.mu.Lock()
	defer s.mu.Unlock()
	k := byte(0)
	if !s.one {
		switch {
		case r.Keys != nil:
			k = r.Keys[0][0]
		case r.Key != "":
			k = r.Key[0]
		}
	}
	l := s.lists[k]
	if len(l) == 0 {
		s.out = "more requests than were sent reached the handler: " + hx.ReqString(r)
		return nil, io.EOF
	}
	s.lists[k] = l[1:]
	return l[0].Res, l[0].Err
}

type scriptedConn struct {
	reqs []hx.WireReq
	ans  []hx.Answer
	segs []int
}

func (c scriptedConn) String() string {
	var s []string
	for i := range c.reqs {
		if i == 10 {
			s = append(s, "...")
			break
		}
		s = append(s, c.reqs[i].String()+" => "+c.ans[i].String())
	}
	return fmt.Sprintf("%v %s", c.segs, strings.Join(s, "; "))
}

// C22: every answer, byte for byte, by an independent decoder.
func TestC22_Wire(t *testing.T) {
	hx.Check(t, 1900, 90000, func(t *rapid.T) {
		n := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "connections")
		h := &scripted{lists: map[byte][]hx.Answer{}, one: n == 1}
		l := serveMem(h)
		defer l.Close()
		var conns []scriptedConn
		var descs, labels []string
		interesting := false
		for i := 0; i < n; i++ {
			g := hx.ReqGen{Value: hx.SmallValue()}
			id := byte(0)
			if n > 1 {
				id = byte('A' + i)
				g.Prefix = string(rune(id))
			}
			reqs, proto := drawStream(t, g, 10)
			c := scriptedConn{segs: reqSizes().Draw(t, "segments")}
			for _, r := range reqs {
				if n > 1 && len(r.Keys) == 0 {
					continue
				}
				c.reqs = append(c.reqs, r)
				a := hx.DrawAnswer(t, r)
				c.ans = append(c.ans, a)
				labels = append(labels, r.Cmd)
				for _, x := range a.Res {
					if x.Error != nil {
						interesting = true
						labels = append(labels, "error")
						break
					}
				}
			}
			if len(c.reqs) > 0 && rapid.IntRange(0, 9).Draw(t, "callfails") == 0 {
				c.ans[len(c.ans)-1] = hx.Answer{Err: io.ErrUnexpectedEOF}
			}
			h.lists[id] = append([]hx.Answer{}, c.ans...)
			conns = append(conns, c)
			descs = append(descs, proto+" "+c.String())
			interesting = interesting || len(c.reqs) > 1
		}
		desc := strings.Join(descs, " || ")
		var mem []*hx.MemConn
		for _, c := range conns {
			mem = append(mem, l.Connect(hx.Cut(streamBytes(c.reqs), c.segs)))
		}
		outs := make([][]byte, n)
		for i := range mem {
			out, ok := mem[i].Wait()
			if !ok {
				t.Fatalf("connection %d is still open though its client is at its end: %s", i, desc)
			}
			outs[i] = out
		}
		h.mu.Lock()
		defer h.mu.Unlock()
		if h.out != "" {
			t.Fatalf("%s: %s", desc, h.out)
		}
		for i, c := range conns {
			r := bufio.NewReader(bytes.NewReader(outs[i]))
			for j := range c.reqs {
				if c.ans[j].Err != nil {
					// The connection ends, or the client learns of an error.
					rest, _ := io.ReadAll(r)
					if len(rest) > 0 && !bytes.HasPrefix(rest, []byte("SERVER_ERROR")) && !bytes.HasPrefix(rest, []byte("ERROR")) && !(rest[0] == 0x81 && len(rest) >= 24 && (rest[6] != 0 || rest[7] != 0)) {
						t.Fatalf("%s: connection %d request %d: the handler failed but the answer is %q", desc, i, j+1, rest)
					}
					r = bufio.NewReader(bytes.NewReader(nil))
					break
				}
				if msg := c.reqs[j].CheckAnswer(r, c.ans[j]); msg != "" {
					t.Fatalf("%s: connection %d request %d: %s", desc, i, j+1, msg)
				}
			}
			if rest, _ := io.ReadAll(r); len(rest) > 0 {
				t.Fatalf("%s: connection %d: surplus answer %q", desc, i, rest)
			}
		}
		hx.Case(desc, interesting, append(labels, fmt.Sprintf("connections: %d", n))...)
	})
}

var serverKinds = map[string][]string{
	hx.Text:   {"get", "get", "getmulti", "set", "set", "add", "replace", "delete", "touch", "incr", "decr", "flush", "version"},
	hx.Meta:   {"get", "get", "set", "set", "add", "replace", "delete", "incr", "decr", "version"},
	hx.Binary: {"get", "get", "getmulti", "set", "set", "add", "replace", "delete", "touch", "incr", "decr", "flush", "version"},
}

// C22: this repository's clients understand the server of this repository.
func TestC22_Clients(t *testing.T) {
	hx.Check(t, 450, 20000, func(t *rapid.T) {
		h := hx.NewMapHandler()
		addr, stop := serveUnix(h)
		defer stop()
		rel := hx.NewRelay("unix", addr)
		defer rel.Close()
		rel.Segments(hx.Segments().Draw(t, "segments"))
		keys := hx.Keys(1, 4).Draw(t, "keys")
		clients := map[string]hx.API{}
		for _, p := range hx.Protocols {
			c := rel.Dial(p, "srv")
			defer closeQuiet(c)
			clients[p] = c
		}
		m := hx.NewModel()
		hist := &history{}
		var tokens []uint64
		n := rapid.IntRange(1, 25).Draw(t, "length")
		past := map[string][]hx.Op{}
		refused := false
		for i := 0; i < n; i++ {
			proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
			cfg := histCfg{kinds: serverKinds[proto], keys: keys, exps: hx.LongTTL(), values: histValue(), big: true, past: past}
			o := cfg.drawOp(t, tokens)
			exp := m.Step(proto, o)
			res := hx.Run(t, clients[proto], o)
			hist.add(proto, o, res)
			refused = refused || res.Kind == hx.NotFound || res.Kind == hx.Exists
			if msg := checkServed(m, proto, o, exp, res); msg != "" {
				t.Fatalf("step %d: %s\nhistory: %s", i, msg, hist)
			}
			if o.Kind == "version" && (res.Err != nil || !strings.HasSuffix(res.Version, "7.8.9")) {
				t.Fatalf("step %d: version via %s: %v\nhistory: %s", i, proto, res, hist)
			}
			tokens = append(tokens, tokensOf(res)...)
			for _, k := range keys {
				if msg := m.CheckState(k, h.State(k)); msg != "" {
					t.Fatalf("step %d: after %s via %s -> %v: %s\nhistory: %s", i, o, proto, res, msg, hist)
				}
			}
		}
		hx.Case("clients: "+hist.String(), refused && len(hist.kinds) > 2, hist.labels()...)
	})
}

// checkServed is CheckResult, apart from what this server leaves open.
func checkServed(m *hx.Model, proto string, o hx.Op, exp hx.Expect, res hx.Result) string {
	return m.CheckResult(proto, o, exp, res)
}

// C22: clients at the same time get the answers to their own requests.
func TestC22_Concurrent(t *testing.T) {
	hx.Check(t, 40, 2000, func(t *rapid.T) {
		h := hx.NewMapHandler()
		addr, stop := serveUnix(h)
		defer stop()
		n := rapid.IntRange(2, 6).Draw(t, "clients")
		type step struct{ o hx.Op }
		plans := make([][]hx.Op, n)
		protos := make([]string, n)
		var desc []string
		for i := range plans {
			protos[i] = rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
			var kinds []string
			for _, k := range serverKinds[protos[i]] {
				if k != "flush" {
					kinds = append(kinds, k)
				}
			}
			cfg := histCfg{kinds: kinds, keys: []string{fmt.Sprintf("k%d", i), fmt.Sprintf("K%d", i)}, exps: hx.LongTTL(), values: histValue()}
			for j := rapid.IntRange(5, 40).Draw(t, "length"); j > 0; j-- {
				plans[i] = append(plans[i], cfg.drawOp(t, nil))
			}
			desc = append(desc, fmt.Sprintf("%s:%d", protos[i], len(plans[i])))
		}
		errs := make(chan string, n)
		hx.Call(t, "clients", func() {
			var wg sync.WaitGroup
			for i := range plans {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					c := hx.MustDial(protos[i], "srv", "unix", addr)
					defer closeQuiet(c)
					m := hx.NewModel()
					hist := &history{}
					for _, o := range plans[i] {
						exp := m.Step(protos[i], o)
						var res hx.Result
						if msg := hx.Try(func() { res = hx.Do(c, o) }); msg != "" {
							errs <- fmt.Sprintf("%s: %s", o, msg)
							return
						}
						hist.add(protos[i], o, res)
						if msg := m.CheckResult(protos[i], o, exp, res); msg != "" {
							errs <- fmt.Sprintf("client %d: %s\nhistory: %s", i, msg, hist)
							return
						}
						for _, k := range []string{fmt.Sprintf("k%d", i), fmt.Sprintf("K%d", i)} {
							if msg := m.CheckState(k, h.State(k)); msg != "" {
								errs <- fmt.Sprintf("client %d: after %s: %s\nhistory: %s", i, o, msg, hist)
								return
							}
						}
					}
				}(i)
			}
			wg.Wait()
		})
		select {
		case e := <-errs:
			t.Fatalf("%d clients at once: %s", n, e)
		default:
		}
		hx.Case("concurrent "+strings.Join(desc, " ")+fmt.Sprint(plans), true, "concurrent clients")
	})
}

// C22: answers that the client takes its time to read.
func TestC22_SlowReader(t *testing.T) {
	hx.Check(t, 1, 2, slowReaders(20, drawPauses, nil))
}

func slowReaders(n int, draw func(*rapid.T, string) []time.Duration, fail func(string, ...interface{})) func(*rapid.T) {
	return func(t *rapid.T) {
		msgs := make([]string, n)
		var descs []string
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			i := i
			h := &scripted{lists: map[byte][]hx.Answer{}, one: true}
			network, addr, stop := listenSlow(t, h)
			defer stop()
			reqs, proto := drawStream(t, hx.ReqGen{Value: hx.SmallValue()}, 4)
			var ans []hx.Answer
			for _, r := range reqs {
				a := hx.DrawAnswer(t, r)
				for k, x := range a.Res {
					if r.Op == server.OpcodeGet && x.Error == nil && k < 3 {
						// often more than fits into the socket's buffers
						x.Value = hx.Fill(rapid.SampledFrom([]int{0, 10, 5000, 70000, 1 << 20, 9 << 20}).Draw(t, "size"), byte(i))
					}
				}
				ans = append(ans, a)
			}
			h.lists[0] = append([]hx.Answer{}, ans...)
			first := rapid.SampledFrom([]int{0, 1, 20, 3000, 100000, 1500000}).Draw(t, "first")
			ps := draw(t, "pause")
			if len(ps) > 2 {
				h.delay = ps[2] / time.Duration(len(reqs))
			}
			desc := fmt.Sprintf("slow reader %s, after %v, after %d bytes %v, handler takes %v: %s %s", network, ps[0], first, ps[1], h.delay, proto, scriptedConn{reqs, ans, nil})
			descs = append(descs, desc)
			wg.Add(1)
			go func() {
				defer wg.Done()
				c, err := net.Dial(network, addr)
				if err != nil {
					hx.Infra("dial: %v", err)
				}
				defer c.Close()
				go func() {
					c.Write(streamBytes(reqs))
					c.(interface{ CloseWrite() error }).CloseWrite()
				}()
				time.Sleep(ps[0])
				var buf bytes.Buffer
				c.SetReadDeadline(time.Now().Add(hx.CallLimit() + h.delay*time.Duration(len(reqs))))
				io.CopyN(&buf, c, int64(first))
				time.Sleep(ps[1])
				c.SetReadDeadline(time.Now().Add(hx.CallLimit() + h.delay*time.Duration(len(reqs))))
				if _, err := io.Copy(&buf, c); err != nil {
					msgs[i] = fmt.Sprintf("%s: after %d bytes: %v", desc, buf.Len(), err)
					return
				}
				r := bufio.NewReader(&buf)
				for j := range reqs {
					if msg := reqs[j].CheckAnswer(r, ans[j]); msg != "" {
						msgs[i] = fmt.Sprintf("%s: request %d: %s", desc, j+1, msg)
						return
					}
				}
				if rest, _ := io.ReadAll(r); len(rest) > 0 {
					msgs[i] = fmt.Sprintf("%s: surplus answer %s", desc, hx.Q(rest))
				}
			}()
		}
		wg.Wait()
		for i, m := range msgs {
			if m != "" {
				if fail != nil {
					fail("%s", m)
				}
				t.Fatalf("%s", m)
			}
			hx.Case(descs[i], true, "slow reader")
		}
	}
}
