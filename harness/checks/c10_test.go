package checks

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// grace is how much later than its timeout a call may return on a loaded
// machine.
const grace = 10 * time.Second

// silent is a server that answers a number of requests and then falls silent.
type silent struct {
	mode    string // noread, read, partial
	answers int64  // requests answered before
	partial int    // bytes of the answer that still come
	fail    bool   // whether a reconnected client is served
	served  atomic.Int64
	stop    chan struct{}
}

func (s *silent) serve(c net.Conn) {
	r := bufio.NewReaderSize(c, 1<<12)
	for {
		if s.mode == "noread" && s.served.Load() >= s.answers {
			<-s.stop
			return
		}
		q, err := hx.ReadReq(r)
		if err != nil {
			return
		}
		rep := okReply(q)
		if s.served.Load() < s.answers {
			s.served.Add(1)
			if _, err := c.Write(rep); err != nil {
				return
			}
			continue
		}
		if s.mode == "partial" {
			n := s.partial
			if n >= len(rep) {
				n = len(rep) - 1
			}
			if n > 0 {
				c.Write(rep[:n])
			}
		}
		io.Copy(io.Discard, r)
		return
	}
}

var c10Kinds = []string{"get", "getmulti", "set", "casset", "add", "replace", "delete", "touch", "incr", "decr", "flush", "version"}

func c10Op(t *rapid.T, kind string, big bool) hx.Op {
	o := hx.Op{Kind: kind, Key: "key", Value: []byte("v"), Delta: 2, Exp: 100}
	switch kind {
	case "casset":
		o.Kind, o.Cas = "set", 99
	case "getmulti":
		n := rapid.SampledFrom([]int{1, 3, 70}).Draw(t, "keys")
		if big {
			n = 6000
		}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%d", i)
			if big {
				k += strings.Repeat("x", 240)
			}
			o.Keys = append(o.Keys, k)
		}
	}
	if big {
		o.Value = hx.Fill(1000000, 1)
	}
	return o
}

// C10: a silent server costs a call about its timeout.
func TestC10_Silent(t *testing.T) {
	hx.Check(t, 130, 4000, func(t *rapid.T) {
		proto := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		kind := rapid.SampledFrom(c10Kinds).Draw(t, "op")
		s := &silent{mode: rapid.SampledFrom([]string{"read", "read", "partial", "partial", "noread"}).Draw(t, "mode"), stop: make(chan struct{})}
		s.partial = rapid.IntRange(1, 60).Draw(t, "partial")
		before := rapid.IntRange(0, 3).Draw(t, "before")
		s.answers = int64(before)
		big := s.mode == "noread" && rapid.Bool().Draw(t, "big")
		o := c10Op(t, kind, big)
		timeout := time.Duration(rapid.SampledFrom([]int{30, 60, 120}).Draw(t, "timeout_ms")) * time.Millisecond
		again := rapid.SampledFrom([]string{"", "", "call", "reconnect"}).Draw(t, "again")
		fs := hx.NewFakeServer(s.serve)
		defer fs.Close()
		defer close(s.stop)
		c := hx.MustDial(proto, "srv", "unix", fs.Addr)
		defer closeQuiet(c)
		for i := 0; i < before; i++ {
			// without a timeout, so that they can't fail on a loaded machine
			if r := hx.Run(t, c, hx.Op{Kind: "version"}); r.Err != nil {
				t.Fatalf("version before: %v", r)
			}
		}
		hx.SetTimeout(c, timeout)
		desc := fmt.Sprintf("%s.%s timeout=%v server=%s partial=%d before=%d again=%q big=%v", proto, o, timeout, s.mode, s.partial, before, again, big)
		call := func(o hx.Op, lower bool) {
			var r hx.Result
			start := time.Now()
			msg := hx.TryFor(timeout+grace, func() { r = hx.Do(c, o) })
			el := time.Since(start)
			if msg != "" {
				t.Fatalf("%s: %s", desc, msg)
			}
			if r.Err == nil {
				t.Fatalf("%s: returned %v although the server did not answer", desc, r)
			}
			if lower && el < timeout/2 {
				t.Fatalf("%s: gave up after %v: %v", desc, el, r)
			}
		}
		call(o, true)
		switch again {
		case "call":
			call(c10Op(t, rapid.SampledFrom(c10Kinds).Draw(t, "op2"), false), false)
		case "reconnect":
			var err error
			hx.SetTimeout(c, 0) // of milliseconds, which a loaded machine may need to connect
			if msg := hx.TryFor(timeout+grace, func() { err = c.Reconnect() }); msg != "" || err != nil {
				t.Fatalf("%s: Reconnect: %s%v", desc, msg, err)
			}
			hx.SetTimeout(c, timeout)
			call(c10Op(t, rapid.SampledFrom(c10Kinds).Draw(t, "op2"), false), true)
		}
		hx.Case(desc, true, "op:"+kind+":"+proto, "server:"+s.mode)
	})
}

// c10Case is one call on a server that has fallen silent.
type c10Case struct {
	proto   string
	op      hx.Op
	mode    string
	partial int
	before  int
	timeout time.Duration
}

func (k c10Case) run() string {
	s := &silent{mode: k.mode, partial: k.partial, answers: int64(k.before), stop: make(chan struct{})}
	fs := hx.NewFakeServer(s.serve)
	defer fs.Close()
	defer close(s.stop)
	c := hx.MustDial(k.proto, "srv", "unix", fs.Addr)
	defer closeQuiet(c)
	for i := 0; i < k.before; i++ {
		var r hx.Result
		if msg := hx.Try(func() { r = hx.Do(c, hx.Op{Kind: "version"}) }); msg != "" || r.Err != nil {
			return fmt.Sprintf("version before: %v%s", r, msg)
		}
	}
	hx.SetTimeout(c, k.timeout)
	var r hx.Result
	if msg := hx.TryFor(k.timeout+grace, func() { r = hx.Do(c, k.op) }); msg != "" {
		return msg
	}
	if r.Err == nil {
		return fmt.Sprintf("returned %v although the server did not answer", r)
	}
	return ""
}

// C10: every operation of every client, in every way a server falls silent.
func TestC10_Everywhere(t *testing.T) {
	hx.Check(t, 4, 120, func(t *rapid.T) {
		var cases []c10Case
		for _, proto := range hx.Protocols {
			for _, kind := range c10Kinds {
				for _, mode := range []string{"read", "partial", "noread", "noread-big"} {
					k := c10Case{proto: proto, mode: strings.TrimSuffix(mode, "-big"), op: c10Op(t, kind, strings.HasSuffix(mode, "-big"))}
					k.partial = rapid.IntRange(1, 60).Draw(t, "partial")
					k.before = rapid.IntRange(0, 2).Draw(t, "before")
					k.timeout = time.Duration(rapid.SampledFrom([]int{50, 100, 200}).Draw(t, "timeout_ms")) * time.Millisecond
					cases = append(cases, k)
				}
			}
		}
		bad := make([]string, len(cases))
		var wg sync.WaitGroup
		gate := make(chan struct{}, 24)
		for i, k := range cases {
			wg.Add(1)
			go func() {
				defer wg.Done()
				gate <- struct{}{}
				defer func() { <-gate }()
				bad[i] = k.run()
			}()
		}
		wg.Wait()
		for i, k := range cases {
			desc := fmt.Sprintf("%s.%s timeout=%v server=%s partial=%d before=%d", k.proto, k.op, k.timeout, k.mode, k.partial, k.before)
			if bad[i] != "" {
				t.Fatalf("%s: %s", desc, bad[i])
			}
			hx.Case(desc, true, "op:"+k.op.Kind+":"+k.proto, "server:"+k.mode)
		}
	})
}

// pausedScript is a client of a healthy server that makes pauses.
type pausedScript struct {
	proto string
	ops   []hx.Op
	wait  []time.Duration // before each call
	delay []time.Duration // that the server takes for each call, well below the timeout
	limit []time.Duration // the timeout that is set for each call, 0: none
}

func (p pausedScript) run() string {
	var delay atomic.Int64
	fs := hx.NewFakeServer(hx.Script(func(q *hx.Req) ([]byte, bool) {
		// once a call, whatever number of requests it makes
		time.Sleep(time.Duration(delay.Swap(0)))
		return okReply(q), true
	}))
	defer fs.Close()
	c := hx.MustDial(p.proto, "srv", "unix", fs.Addr)
	defer closeQuiet(c)
	for i, o := range p.ops {
		time.Sleep(p.wait[i])
		hx.SetTimeout(c, p.limit[i])
		delay.Store(int64(p.delay[i]))
		var r hx.Result
		if msg := hx.TryFor(hx.CallLimit()+p.delay[i], func() { r = hx.Do(c, o) }); msg != "" {
			return fmt.Sprintf("call %d, %s: %s", i, o, msg)
		}
		if r.Err != nil {
			return fmt.Sprintf("call %d, %s: %v (timeouts %v, pauses before the calls %v, the server took %v)", i, o, r, p.limit, p.wait, p.delay)
		}
	}
	return ""
}

// C10: the allowance is per call.
func TestC10_Pauses(t *testing.T) {
	const timeout = 2 * time.Second
	pauses := []time.Duration{0, 500 * time.Millisecond, 900 * time.Millisecond, 1500 * time.Millisecond, 2200 * time.Millisecond}
	delays := []time.Duration{0, 0, 600 * time.Millisecond, 1100 * time.Millisecond, 1300 * time.Millisecond}
	limits := []time.Duration{timeout, timeout, timeout, 2 * timeout, 0}
	kinds := len(c10Kinds) * len(hx.Protocols)
	hx.Check(t, 1, 12, func(t *rapid.T) {
		scripts := make([]pausedScript, 4*kinds)
		bad := make([]string, len(scripts))
		for i := range scripts {
			s := pausedScript{proto: rapid.SampledFrom(hx.Protocols).Draw(t, "proto")}
			for j := rapid.IntRange(2, 4).Draw(t, "ops"); j > 0; j-- {
				s.ops = append(s.ops, c10Op(t, rapid.SampledFrom(c10Kinds).Draw(t, "op"), false))
				s.wait = append(s.wait, rapid.SampledFrom(pauses).Draw(t, "pause"))
				s.delay = append(s.delay, rapid.SampledFrom(delays).Draw(t, "delay"))
				s.limit = append(s.limit, rapid.SampledFrom(limits).Draw(t, "limit"))
			}
			// Every operation of every client once after a pause longer than
			// the timeout, and once, as the same before it, on a server that
			// takes long: no call may live on what another one has left. And
			// once without a timeout, after a call that had one.
			if i < 3*kinds {
				k := i % kinds
				s.proto = hx.Protocols[k%len(hx.Protocols)]
				s.ops[1] = c10Op(t, c10Kinds[k/len(hx.Protocols)], false)
				s.limit[0], s.limit[1] = timeout, timeout
				switch i / kinds {
				case 0:
					s.wait[1] = 2200 * time.Millisecond
				case 1:
					s.ops[0] = s.ops[1]
					s.delay[0], s.wait[1], s.delay[1] = 0, 900*time.Millisecond, 1300*time.Millisecond
				case 2:
					s.limit[1] = 0
					s.wait[1] = rapid.SampledFrom([]time.Duration{1500 * time.Millisecond, 2200 * time.Millisecond}).Draw(t, "pause1")
					s.delay[1] = 1300 * time.Millisecond
				}
			}
			scripts[i] = s
		}
		var wg sync.WaitGroup
		for i, s := range scripts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				// A machine that stands still for seconds is no violation.
				for try := 0; try < 3; try++ {
					if bad[i] = s.run(); bad[i] == "" {
						return
					}
				}
			}()
		}
		wg.Wait()
		for i, b := range bad {
			if b != "" {
				t.Fatalf("%s client: %s", scripts[i].proto, b)
			}
			hx.Case(fmt.Sprintf("paused %+v", scripts[i]), true, "paused:"+scripts[i].proto)
		}
	})
}

// deafCase is a client of a host that has stopped taking part in anything: it
// answers neither requests nor attempts to connect.
type deafCase struct {
	proto   string
	before  hx.Op // a call that notices
	timeout time.Duration
	others  []hx.Op // by others, while the client tries to reconnect
	later   hx.Op
}

func (k deafCase) run() (msg string, deaf bool) {
	d := hx.NewDeaf()
	defer d.Close()
	c := hx.MustDial(k.proto, "srv", "tcp", d.Addr)
	defer closeQuiet(c)
	d.Hold()
	if !d.Stop() {
		return "", false
	}
	hx.SetTimeout(c, k.timeout)
	var mu sync.Mutex
	check := func(what string, n int, fn func() error) {
		var err error
		start := time.Now()
		m := hx.TryFor(time.Duration(n)*k.timeout+grace, func() { err = fn() })
		if m == "" && err == nil {
			m = "succeeded"
		}
		if m != "" {
			mu.Lock()
			msg += fmt.Sprintf("%s: %s after %v; ", what, m, time.Since(start).Round(time.Millisecond))
			mu.Unlock()
		}
	}
	op := func(o hx.Op) func() error { return func() error { return hx.Do(c, o).Err } }
	check(k.before.String(), 1, op(k.before))
	if msg != "" {
		return msg, true
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); check("Reconnect", 1+len(k.others), c.Reconnect) }()
	time.Sleep(k.timeout / 10)
	for _, o := range k.others {
		wg.Add(1)
		go func() {
			defer wg.Done()
			check(o.String()+" during Reconnect", 1+len(k.others), op(o))
		}()
	}
	wg.Wait()
	if msg == "" {
		check(k.later.String()+" later", 1, op(k.later))
	}
	return msg, true
}

// C10: a host that does not even refuse connections.
func TestC10_Unreachable(t *testing.T) {
	hx.Check(t, 2, 40, func(t *rapid.T) {
		var cases []deafCase
		for i := 0; i < 15; i++ {
			k := deafCase{proto: hx.Protocols[i%3], timeout: time.Duration(rapid.SampledFrom([]int{50, 100, 300}).Draw(t, "timeout_ms")) * time.Millisecond}
			draw := func() hx.Op { return c10Op(t, rapid.SampledFrom(c10Kinds).Draw(t, "op"), false) }
			k.before, k.later = draw(), draw()
			for j := rapid.IntRange(0, 3).Draw(t, "others"); j > 0; j-- {
				k.others = append(k.others, draw())
			}
			cases = append(cases, k)
		}
		bad := make([]string, len(cases))
		deaf := make([]bool, len(cases))
		var wg sync.WaitGroup
		for i, k := range cases {
			wg.Add(1)
			go func() {
				defer wg.Done()
				bad[i], deaf[i] = k.run()
			}()
		}
		wg.Wait()
		for i, k := range cases {
			desc := fmt.Sprintf("unreachable %s timeout=%v %s others=%v %s", k.proto, k.timeout, k.before, k.others, k.later)
			if bad[i] != "" {
				t.Fatalf("%s: %s", desc, bad[i])
			}
			if deaf[i] { // else the kernel does not do this
				hx.Case(desc, true, "unreachable:"+k.proto)
			}
		}
	})
}
