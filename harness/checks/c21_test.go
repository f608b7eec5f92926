package checks

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"go.f110.dev/go-memcached/server"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// recorder is a handler that keeps a copy of everything it gets.
type recorder struct {
	mu   sync.Mutex
	got  []*server.Request // copies
	orig []*server.Request
	bad  string
	slow bool
	ans  []hx.Answer // of the first requests, instead of unremarkable ones
}

func (h *recorder) ServeRequest(r *server.Request) ([]*server.Response, error) {
	c := hx.CloneReq(r)
	h.mu.Lock()
	h.got, h.orig = append(h.got, c), append(h.orig, r)
	n := len(h.got)
	h.mu.Unlock()
	if n <= len(h.ans) {
		return h.ans[n-1].Res, h.ans[n-1].Err
	}
	if h.slow {
		// The request belongs to the handler while the call lasts, whatever
		// arrives on other connections meanwhile.
		for i := 0; i < 20; i++ {
			runtime.Gosched()
			h.mu.Lock()
			moved := len(h.got) != n
			h.mu.Unlock()
			if moved {
				break
			}
		}
		if d := hx.ReqString(hx.CloneReq(r)); d != hx.ReqString(c) || string(r.Value) != string(c.Value) {
			h.mu.Lock()
			h.bad = fmt.Sprintf("the request changed while the handler had it, from %s to %s", hx.ReqString(c), d)
			h.mu.Unlock()
		}
	}
	return okResponse(r), nil
}

// okResponse is an unremarkable answer.
func okResponse(r *server.Request) []*server.Response {
	switch r.Opcode {
	case server.OpcodeGet:
		if r.Keys != nil {
			return []*server.Response{}
		}
		return []*server.Response{{Key: r.Key, Value: []byte("v")}}
	case server.OpcodeIncrement, server.OpcodeDecrement:
		return []*server.Response{{Value: []byte("12345678")}}
	case server.OpcodeVersion:
		return []*server.Response{{Value: []byte("VERSION 1")}}
	}
	return []*server.Response{{}}
}

// kept compares what the handler got, and may have put into its store, with
// what it is now.
func (h *recorder) kept() string {
	h.mu.Lock()
	defer h.mu.Unlock()
	for i, c := range h.got {
		if d := hx.ReqString(hx.CloneReq(h.orig[i])); d != hx.ReqString(c) || string(h.orig[i].Value) != string(c.Value) {
			return fmt.Sprintf("request %d of %d changed after it was handled, from %s to %s", i+1, len(h.got), hx.ReqString(c), d)
		}
	}
	return ""
}

func (h *recorder) take() []*server.Request {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]*server.Request{}, h.got...)
}

// serveMem runs a server on in-memory connections.
func serveMem(h server.Handler) *hx.MemListener {
	l := hx.NewMemListener()
	go (&server.Server{Handler: h}).Serve(l)
	return l
}

// serveUnix runs a server on a unix socket.
func serveUnix(h server.Handler) (addr string, stop func()) {
	addr = hx.NextPath("s")
	l, err := net.Listen("unix", addr)
	if err != nil {
		hx.Infra("listen: %v", err)
	}
	go (&server.Server{Handler: h}).Serve(l)
	return addr, func() { l.Close(); os.Remove(addr) }
}

// drawStream makes the requests of one connection.
func drawStream(t *rapid.T, g hx.ReqGen, max int) (reqs []hx.WireReq, proto string) {
	proto = rapid.SampledFrom([]string{"ascii", "ascii", "binary"}).Draw(t, "proto")
	g.Cmds = append(append([]string{}, hx.TextCmds...), hx.MetaCmds...)
	if proto == "binary" {
		g.Cmds = hx.BinCmds
	}
	n := rapid.IntRange(1, max).Draw(t, "requests")
	for i := 0; i < n; i++ {
		reqs = append(reqs, g.Draw(t))
	}
	return reqs, proto
}

func streamBytes(reqs []hx.WireReq) (b []byte) {
	for _, r := range reqs {
		b = append(b, r.Raw...)
	}
	return b
}

func streamString(reqs []hx.WireReq) string {
	var s []string
	for i, r := range reqs {
		if i == 12 {
			s = append(s, fmt.Sprintf("(%d more)", len(reqs)-i))
			break
		}
		s = append(s, r.String())
	}
	return strings.Join(s, "; ")
}

// matchStream compares what the handler got with what was sent.
func matchStream(reqs []hx.WireReq, got []*server.Request) string {
	for i, w := range reqs {
		if i >= len(got) {
			return fmt.Sprintf("request %d of %d (%s) did not reach the handler", i+1, len(reqs), w)
		}
		if msg := w.Matches(got[i]); msg != "" {
			return fmt.Sprintf("request %d of %d: %s", i+1, len(reqs), msg)
		}
	}
	if len(got) > len(reqs) {
		return fmt.Sprintf("the handler got %d requests, %d were sent; the first surplus one is %s", len(got), len(reqs), hx.ReqString(got[len(reqs)]))
	}
	return ""
}

func reqSizes() *rapid.Generator[[]int] {
	return rapid.OneOf(hx.Segments(), rapid.SliceOfN(rapid.IntRange(1, 60), 1, 12))
}

// C21: pipelined requests in generated segments, one or several connections.
func TestC21_Pipelined(t *testing.T) {
	hx.Check(t, 2500, 90000, func(t *rapid.T) {
		n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "connections")
		h := &recorder{slow: n > 1}
		l := serveMem(h)
		defer l.Close()
		var streams [][]hx.WireReq
		var labels, descs []string
		var segs [][][]byte
		keyless, total := 0, 0
		interesting := false
		for i := 0; i < n; i++ {
			g := hx.ReqGen{}
			if n > 1 {
				g.Prefix = string(rune('A' + i))
			}
			reqs, proto := drawStream(t, g, 12)
			if n > 1 {
				var keep []hx.WireReq
				for _, r := range reqs {
					if len(r.Keys) > 0 {
						keep = append(keep, r)
					} else {
						keyless++
					}
				}
				streams = append(streams, keep)
			} else {
				streams = append(streams, reqs)
			}
			total += len(reqs)
			cut := reqSizes().Draw(t, "segments")
			segs = append(segs, hx.Cut(streamBytes(reqs), cut))
			descs = append(descs, fmt.Sprintf("%s %v: %s", proto, cut, streamString(reqs)))
			labels = append(labels, proto)
			interesting = interesting || len(reqs) > 1 && len(cut) > 0
			for _, r := range reqs {
				labels = append(labels, r.Cmd)
			}
		}
		var conns []*hx.MemConn
		for i := 0; i < n; i++ {
			conns = append(conns, l.Connect(segs[i]))
		}
		desc := strings.Join(descs, " || ")
		for i, c := range conns {
			if _, ok := c.Wait(); !ok {
				t.Fatalf("connection %d is still open though its client is at its end: %s", i, desc)
			}
		}
		got := h.take()
		if h.bad != "" {
			t.Fatalf("%s: %s", desc, h.bad)
		}
		if msg := h.kept(); msg != "" {
			t.Fatalf("%s: %s", desc, msg)
		}
		if n == 1 {
			if msg := matchStream(streams[0], got); msg != "" {
				t.Fatalf("%s: %s", desc, msg)
			}
		} else {
			per := make([][]*server.Request, n)
			other := 0
			for _, r := range got {
				k := r.Key
				if r.Keys != nil {
					k = r.Keys[0]
				}
				if k != "" && int(k[0]-'A') < n && k[0] >= 'A' {
					per[k[0]-'A'] = append(per[k[0]-'A'], r)
				} else {
					other++
				}
			}
			for i := range streams {
				if msg := matchStream(streams[i], per[i]); msg != "" {
					t.Fatalf("%s: connection %d: %s", desc, i, msg)
				}
			}
			if other != keyless {
				t.Fatalf("%s: the handler got %d requests without key, %d were sent", desc, other, keyless)
			}
		}
		hx.Case(desc, interesting, append(labels, fmt.Sprintf("connections: %d", n))...)
		hx.Count("requests", total)
	})
}

// C21: whatever the handler says, it is asked once.
func TestC21_Answers(t *testing.T) {
	hx.Check(t, 1200, 40000, func(t *rapid.T) {
		h := &recorder{}
		l := serveMem(h)
		defer l.Close()
		reqs, proto := drawStream(t, hx.ReqGen{Value: hx.SmallValue()}, 8)
		end := len(reqs)
		desc := proto
		for i, r := range reqs {
			a := hx.DrawAnswer(t, r)
			if rapid.IntRange(0, 4).Draw(t, "err") == 0 {
				// The server may end the connection.
				a = hx.Answer{Err: hx.DrawError(t)}
				if rapid.Bool().Draw(t, "both") {
					a.Res = okResponse(&server.Request{Opcode: r.Op})
				}
				if end > i+1 {
					end = i + 1
				}
			}
			h.ans = append(h.ans, a)
			desc += fmt.Sprintf("; %s -> %s", r, a)
		}
		if _, ok := l.Connect(hx.Cut(streamBytes(reqs), reqSizes().Draw(t, "segments"))).Wait(); !ok {
			t.Fatalf("%s: the connection is still open though its client is at its end", desc)
		}
		got := h.take()
		n := len(got)
		if n > len(reqs) || n < end {
			n = end
		}
		if msg := matchStream(reqs[:n], got); msg != "" {
			t.Fatalf("%s: %s", desc, msg)
		}
		hx.Case("answers "+desc, true, "handler's answers")
	})
}

// C21: every request arrives as soon as its last byte does.
func TestC21_OneByOne(t *testing.T) {
	h := &recorder{}
	addr, stop := serveUnix(h)
	defer stop()
	hx.Check(t, 350, 12000, func(t *rapid.T) {
		h.mu.Lock()
		h.got, h.orig = nil, nil
		h.mu.Unlock()
		reqs, proto := drawStream(t, hx.ReqGen{}, 6)
		cut := reqSizes().Draw(t, "segments")
		c, err := net.Dial("unix", addr)
		if err != nil {
			hx.Infra("dial: %v", err)
		}
		defer c.Close()
		go io.Copy(io.Discard, c)
		for i, r := range reqs {
			for _, s := range hx.Cut(r.Raw, cut) {
				if _, err := c.Write(s); err != nil {
					t.Fatalf("%v %s: writing request %d: %v", cut, streamString(reqs), i+1, err)
				}
				if len(cut) > 0 && len(r.Raw) < 4096 {
					hx.WaitDrained(c)
				}
			}
			if !hx.WaitFor(hx.CallLimit(), func() bool { h.mu.Lock(); defer h.mu.Unlock(); return len(h.got) > i }) {
				t.Fatalf("%v %s: request %d was sent but did not reach the handler", cut, streamString(reqs), i+1)
			}
		}
		if msg := matchStream(reqs, h.take()); msg != "" {
			t.Fatalf("%v %s: %s", cut, streamString(reqs), msg)
		}
		if msg := h.kept(); msg != "" {
			t.Fatalf("%v %s: %s", cut, streamString(reqs), msg)
		}
		hx.Case(fmt.Sprintf("one by one %s %v: %s", proto, cut, streamString(reqs)), len(reqs) > 1, "one by one")
		hx.Count("requests", len(reqs))
	})
}

// C21: what a handler could not know about a request does not get through as
// something else.
func TestC21_Delayed(t *testing.T) {
	hx.Check(t, 60, 1000, func(t *rapid.T) {
		h := &recorder{}
		l := serveMem(h)
		defer l.Close()
		d := rapid.IntRange(1, 1<<30).Draw(t, "delay")
		raw := []byte(fmt.Sprintf("flush_all %d\r\n", d))
		if rapid.Bool().Draw(t, "binary") {
			raw = hx.BinReq(8, 1, 0, hx.U32(uint32(d)), "", nil)
		}
		l.Connect([][]byte{raw}).Wait()
		for _, r := range h.take() {
			if (r.SetOpt == nil || r.SetOpt.Expiration != d) && r.Delta != int64(d) {
				t.Fatalf("%q, a flush %d s from now, reached the handler as %s", raw, d, hx.ReqString(r))
			}
		}
		hx.Case(fmt.Sprintf("%q", raw), true, "delayed flush")
	})
}

// C21: meta requests that mean what server.Request has no field for are not
// passed on as what they do not mean.
func TestC21_Untold(t *testing.T) {
	hx.Check(t, 150, 3000, func(t *rapid.T) {
		h := &recorder{}
		l := serveMem(h)
		defer l.Close()
		k := hx.Key().Draw(t, "key")
		cmd := rapid.SampledFrom([]string{"ms", "ms", "mg", "md"}).Draw(t, "cmd")
		known := map[string][]string{"ms": {"C5", "F7", "k", "O9", "T60"}, "mg": {"c", "f", "k", "O9", "t", "v"}, "md": {}}[cmd]
		untold := map[string][]string{"ms": {"b", "ME", "MA", "MP", "MR", "Me", "Mappend", "E77", "E0"}, "mg": {"b", "N60", "N0", "T60", "R30", "E5"},
			"md": {"q", "I", "T30", "C5", "E5", "b", "x"}}[cmd]
		var words []string
		if len(known) > 0 {
			words = rapid.SliceOfNDistinct(rapid.SampledFrom(known), 0, len(known), rapid.ID[string]).Draw(t, "known")
		}
		u := rapid.SampledFrom(untold).Draw(t, "untold")
		at := rapid.IntRange(0, len(words)).Draw(t, "at")
		words = append(append(append([]string{}, words[:at]...), u), words[at:]...)
		raw := cmd + " " + k
		if cmd == "ms" {
			raw += " 2"
		}
		raw += " " + strings.Join(words, " ") + "\r\n"
		if cmd == "ms" {
			raw += "12\r\n"
		}
		l.Connect(hx.Cut([]byte(raw), reqSizes().Draw(t, "segments"))).Wait()
		for _, r := range h.take() {
			t.Fatalf("%q, which says %q, reached the handler as %s", raw, u, hx.ReqString(r))
		}
		hx.Case(fmt.Sprintf("untold %q", raw), true, "untold: "+cmd+" "+u[:1])
	})
}

// Clients may be slow: pauses are longer than what a short time limit would
// allow, and all connections of a case wait at the same time.
func drawPauses(t *rapid.T, label string) []time.Duration {
	of := []int{0, 300, 1100, 2200, 2200}
	if hx.Thorough() {
		of = []int{0, 1100, 3300, 5500, 11000, 31000, 61000}
	}
	var ps []time.Duration
	for i := 0; i < 2; i++ {
		ps = append(ps, time.Duration(rapid.SampledFrom(of).Draw(t, label))*time.Millisecond)
	}
	return ps
}

// listenSlow runs a server on a socket of either kind.
func listenSlow(t *rapid.T, h server.Handler) (network, addr string, stop func()) {
	if rapid.Bool().Draw(t, "tcp") {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			hx.Infra("listen: %v", err)
		}
		go (&server.Server{Handler: h}).Serve(l)
		return "tcp", l.Addr().String(), func() { l.Close() }
	}
	addr, stop = serveUnix(h)
	return "unix", addr, stop
}

// C21: requests whose bytes take their time.
func TestC21_SlowSender(t *testing.T) {
	hx.Check(t, 1, 2, slowSenders(24, drawPauses, nil))
}

func slowSenders(n int, draw func(*rapid.T, string) []time.Duration, fail func(string, ...interface{})) func(*rapid.T) {
	return func(t *rapid.T) {
		msgs := make([]string, n)
		var descs []string
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			i := i
			h := &recorder{}
			network, addr, stop := listenSlow(t, h)
			defer stop()
			reqs, proto := drawStream(t, hx.ReqGen{}, 4)
			b := streamBytes(reqs)
			cut := rapid.IntRange(0, len(b)).Draw(t, "cut")
			switch rapid.IntRange(0, 3).Draw(t, "where") {
			case 0, 1: // in the middle of the last bytes
				cut = len(b) - rapid.IntRange(0, 4).Draw(t, "before")
			case 2: // between two requests
				cut = len(streamBytes(reqs[:rapid.IntRange(0, len(reqs)-1).Draw(t, "between")]))
			}
			ps := draw(t, "pause")
			desc := fmt.Sprintf("slow %s %s after %v, cut at %d of %d for %v: %s", network, proto, ps[0], cut, len(b), ps[1], streamString(reqs))
			descs = append(descs, desc)
			wg.Add(1)
			go func() {
				defer wg.Done()
				c, err := net.Dial(network, addr)
				if err != nil {
					hx.Infra("dial: %v", err)
				}
				defer c.Close()
				go io.Copy(io.Discard, c)
				time.Sleep(ps[0])
				c.Write(b[:cut])
				time.Sleep(ps[1])
				if _, err := c.Write(b[cut:]); err != nil {
					msgs[i] = fmt.Sprintf("%s: the server closed the connection: %v", desc, err)
					return
				}
				hx.WaitFor(hx.CallLimit(), func() bool { h.mu.Lock(); defer h.mu.Unlock(); return len(h.got) >= len(reqs) })
				if msg := matchStream(reqs, h.take()); msg != "" {
					msgs[i] = desc + ": " + msg
				}
			}()
		}
		wg.Wait()
		for i, m := range msgs {
			if m != "" {
				if fail != nil {
					fail("%s", m)
				}
				t.Fatalf("%s", m)
			}
			hx.Case(descs[i], true, "slow sender")
		}
	}
}

// C21: thousands of requests on one connection.
func TestC21_Long(t *testing.T) {
	hx.Check(t, 4, 120, func(t *rapid.T) {
		h := &recorder{}
		l := serveMem(h)
		defer l.Close()
		base, proto := drawStream(t, hx.ReqGen{Value: hx.SmallValue()}, 12)
		size := 0
		for _, r := range base {
			size += len(r.Raw)
		}
		n := rapid.IntRange(1, rapid.SampledFrom([]int{300, 1500, 6000}).Draw(t, "max")).Draw(t, "length")
		for n > 1 && n*size/len(base) > 4<<20 {
			n /= 2
		}
		r := rand.New(rand.NewSource(rapid.Int64Range(0, 1<<40).Draw(t, "seed")))
		var reqs []hx.WireReq
		for i := 0; i < n; i++ {
			reqs = append(reqs, base[r.Intn(len(base))])
		}
		cut := rapid.SampledFrom([][]int{nil, {1000}, {4096}, {17, 4095, 1}, {60000}}).Draw(t, "segments")
		desc := fmt.Sprintf("%d requests on one connection, %s %v, of: %s", n, proto, cut, streamString(base))
		if _, ok := l.Connect(hx.Cut(streamBytes(reqs), cut)).Wait(); !ok {
			t.Fatalf("%s: the connection is still open though its client is at its end", desc)
		}
		if msg := matchStream(reqs, h.take()); msg != "" {
			t.Fatalf("%s: %s", desc, msg)
		}
		if msg := h.kept(); msg != "" {
			t.Fatalf("%s: %s", desc, msg)
		}
		hx.Case(desc, n > 100, "long stream")
		hx.Count("requests", n)
	})
}
