package checks

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"go.f110.dev/go-memcached/server"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

var theChild *hx.Child

func child() *hx.Child {
	if theChild == nil {
		theChild = hx.NewChild()
	}
	return theChild
}

// endChild makes the next case start with a new process.
func endChild() {
	if theChild != nil {
		theChild.Close()
		theChild = nil
	}
}

// malformed makes a request that is wrong, for a connection of text or binary
// requests. What follows it is never a request.
func malformed(t *rapid.T, proto, prefix string) (raw []byte, what string) {
	key := prefix + rapid.StringMatching(`[a-z]{1,6}`).Draw(t, "badkey")
	pick := func(name string, s ...string) string { return rapid.SampledFrom(s).Draw(t, name) }
	if proto == "binary" {
		opcode := rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 5, 6, 0xd, 0x1c}).Draw(t, "opcode")
		extras := map[byte]int{1: 8, 2: 8, 3: 8, 5: 20, 6: 20, 0x1c: 4}[opcode]
		what = pick("class", "lengths", "extras", "nokey", "opcode", "magic", "lie")
		b := hx.BinReq(opcode, 7, 0, make([]byte, extras), key, []byte("xx"))
		switch what {
		case "lengths": // key and extras do not fit in the body
			binary.BigEndian.PutUint32(b[8:], uint32(rapid.IntRange(0, extras+len(key)-1).Draw(t, "total")))
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				binary.BigEndian.PutUint16(b[2:], math.MaxUint16)
			case 1:
				b[4] = 255
			}
		case "extras":
			if extras == 0 {
				opcode, extras = 1, 8
			}
			n := rapid.SampledFrom([]int{0, 1, 3, 4, 5, 7, 8, 9, 12, 16, 19, 20, 21, 255}).Filter(func(n int) bool { return n != extras }).Draw(t, "extras")
			b = hx.BinReq(opcode, 7, 0, make([]byte, n), key, []byte("xx"))
		case "nokey":
			b = hx.BinReq(opcode, 7, 0, make([]byte, extras), "", []byte("xx"))
		case "opcode":
			b = hx.BinReq(rapid.SampledFrom([]byte{0x25, 0x3f, 0x55, 0x7f, 0x80, 0xff}).Draw(t, "unknown"), 7, 0, nil, key, nil)
		case "magic":
			b[0] = rapid.SampledFrom([]byte{0x81, 0, 'g', 0x7f, 0xff}).Draw(t, "magic")
		case "lie":
			binary.BigEndian.PutUint32(b[8:], rapid.SampledFrom([]uint32{1 << 20, 1<<20 + 1, 1<<31 - 1, 1 << 31, 1<<31 - 2, math.MaxUint32}).Draw(t, "total"))
		}
		return append(b, bytes.Repeat([]byte("x"), rapid.IntRange(0, 60).Draw(t, "tail"))...), what
	}
	badnum := func(signed bool) string {
		s := []string{"abc", "", "1.5", "0x10", "99999999999999999999999", "1e3", "--1", "5x", "x5", "\x00", "18446744073709551616"}
		if !signed {
			s = append(s, "-1", "-2", "-2147483648", "-9223372036854775808")
		}
		return pick("num", s...)
	}
	store := pick("store", "set", "add", "replace", "cas", "ms")
	head := func(flags, exp, n string) string {
		if store == "ms" {
			return fmt.Sprintf("ms %s %s F%s T%s", key, n, flags, exp)
		}
		l := fmt.Sprintf("%s %s %s %s %s", store, key, flags, exp, n)
		if store == "cas" {
			l += " 7"
		}
		return l
	}
	what = pick("class", "command", "flags", "exp", "length", "args", "block", "key", "delta", "touch", "token", "lie", "line", "empty")
	l, data := "", "xxx\r\n"
	switch what {
	case "command":
		l, data = pick("unknown", "foo", "GET", "sett", "getx", "s", "ma", "quux", "\x00", "\xff\xfe", "VALUE", "STORED", "mq")+" "+key, ""
	case "flags":
		l = head(pick("bigflags", badnum(false), "4294967296"), "0", "3")
	case "exp":
		l = head("0", pick("bigexp", badnum(true), "99999999999"), "3")
	case "length":
		l = head("0", "0", pick("biglen", badnum(false), badnum(false), "4294967296", "9223372036854775807", "9223372036854775806"))
	case "args":
		l = pick("args", "get", "gets", "set "+key, "set "+key+" 0", "set "+key+" 0 0", "add", "replace "+key+" 1 2", "cas "+key+" 0 0 3", "delete", "incr "+key, "decr", "touch "+key, "touch", "mg", "ms "+key, "ms", "md",
			"set "+key+" 0 0 3 4 5", "cas "+key+" 0 0 3 1 2 3", "incr "+key+" 1 2 3")
	case "block": // the data is longer than announced, or ends in something else
		n := rapid.IntRange(0, 3).Draw(t, "n")
		l = head("0", "0", fmt.Sprint(n))
		data = strings.Repeat("x", n) + pick("end", "xx\r\n", "x\r\n", "\n\n\n", "\rx\r\n", "\n\r\n", "xxxxxxxxxxxx\r\n", "\x00\x00\r\n", "\r\r\n")
	case "key":
		key = pick("longkey", strings.Repeat("k", 251), strings.Repeat("k", 1000), prefix+"a\x00b", prefix+"a\x01", prefix+"\x7f", prefix+"a\tb", prefix+"a\rb", prefix+"a\r", strings.Repeat("k", 70000))
		if rapid.Bool().Draw(t, "reading") {
			l, data = pick("read", "get ", "gets ", "delete ", "gets a ")+key, ""
		} else {
			l = head("0", "0", "3")
		}
	case "delta":
		l, data = pick("counter", "incr ", "decr ")+key+" "+badnum(false), ""
	case "touch":
		l, data = "touch "+key+" "+badnum(true), ""
	case "token":
		l = pick("token", "cas "+key+" 0 0 3 "+badnum(false), "ms "+key+" 3 C"+badnum(false), "ms "+key+" S3", "ms "+key+" 3 T"+badnum(true), "ms "+key+" 3 F"+badnum(false))
	case "lie":
		l = head("0", "0", pick("lie", "1048576", "1048577", "2147483647", "2147483645", "2147483646", "1000000000"))
	case "line":
		l, data = pick("word", "get ", "set ", "x", "mg ", "gets ")+strings.Repeat("k", rapid.SampledFrom([]int{4090, 4096, 5000, 70000, 3 << 20}).Draw(t, "linelen")), ""
	case "empty":
		l, data = pick("blank", "", " ", "   ", "\r", "\x00"), ""
	}
	end := "\r\n"
	if what == "line" && rapid.Bool().Draw(t, "noend") {
		end = ""
	}
	return []byte(l + end + data + strings.Repeat("x", rapid.IntRange(0, 30).Draw(t, "tail"))), what
}

// attack is what one connection sends.
type attack struct {
	proto string
	valid []hx.WireReq // these come through
	exact bool         // and nothing else does
	bytes []byte
	segs  []int
	end   string
	what  string
}

func (a attack) String() string {
	return fmt.Sprintf("%s %s, %v, sends %s then %s", a.what, a.end, a.segs, streamString(a.valid), hx.Q(a.bytes[len(streamBytes(a.valid)):]))
}

func mutate(t *rapid.T, b []byte) (out []byte, first int) {
	out = append([]byte{}, b...)
	first = len(b)
	for n := rapid.IntRange(1, 4).Draw(t, "mutations"); n > 0 && len(out) > 0; n-- {
		p := rapid.IntRange(0, len(out)-1).Draw(t, "at")
		if p < first {
			first = p
		}
		switch rapid.IntRange(0, 6).Draw(t, "mutation") {
		case 0:
			out[p] = rapid.Byte().Draw(t, "byte")
		case 1:
			out[p] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 2:
			k := min(len(out)-p, rapid.IntRange(1, 8).Draw(t, "n"))
			out = append(out[:p:p], out[p+k:]...)
		case 3:
			ins := rapid.SampledFrom([]string{" ", "\r\n", "\n", "\r", "0", "-", "9999999999", "\x80", "\x81", "\x00", "get ", " noreply", "\xff\xff\xff\xff"}).Draw(t, "ins")
			out = append(out[:p:p], append([]byte(ins), out[p:]...)...)
		case 4:
			k := min(len(out)-p, rapid.IntRange(1, 40).Draw(t, "n"))
			out = append(out[:p+k:p+k], out[p:]...)
		case 5:
			out[p] = rapid.SampledFrom([]byte{0, 0xff, 0x7f, 0x80, '\n', '\r', ' ', '-', '9'}).Draw(t, "special")
		case 6:
			out = out[:p]
		}
	}
	return out, first
}

func drawAttack(t *rapid.T, prefix string) attack {
	a := attack{segs: reqSizes().Draw(t, "segments"), exact: true, end: rapid.SampledFrom([]string{"ends", "ends", "cuts", "stays"}).Draw(t, "end")}
	g := hx.ReqGen{Prefix: prefix, Value: hx.SmallValue()}
	var reqs []hx.WireReq
	reqs, a.proto = drawStream(t, g, 5)
	reqs = reqs[:rapid.IntRange(0, len(reqs)).Draw(t, "valid")]
	for _, r := range reqs {
		if prefix == "" || len(r.Keys) > 0 {
			a.valid = append(a.valid, r)
		}
	}
	a.bytes = streamBytes(a.valid)
	kinds := []string{"malformed", "malformed", "truncated"}
	if prefix == "" {
		kinds = append(kinds, "mutated", "random")
	}
	switch a.what = rapid.SampledFrom(kinds).Draw(t, "what"); a.what {
	case "malformed":
		raw, what := malformed(t, a.proto, prefix)
		a.what += ":" + a.proto + ":" + what
		if a.proto == "binary" && len(a.valid) == 0 && raw[0] != 0x80 {
			raw = append([]byte{0x80}, raw...) // stay binary
			raw[1] = 0x55
		}
		a.bytes = append(a.bytes, raw...)
	case "truncated":
		g.Cmds = append(append([]string{}, hx.TextCmds...), hx.MetaCmds...)
		if a.proto == "binary" {
			g.Cmds = hx.BinCmds
		}
		r := g.Draw(t)
		n := rapid.IntRange(0, len(r.Raw)-1).Draw(t, "cut")
		if rapid.IntRange(0, 2).Draw(t, "late") == 0 {
			n = len(r.Raw) - 1 - min(len(r.Raw)-1, rapid.IntRange(0, 3).Draw(t, "missing"))
		}
		a.what += ":" + r.Cmd
		a.bytes = append(a.bytes, r.Raw[:n]...)
	case "mutated":
		a.exact = false
		b, first := mutate(t, a.bytes)
		a.bytes = b
		off := 0
		for i, r := range a.valid {
			off += len(r.Raw)
			if off > first {
				a.valid = a.valid[:i]
				break
			}
		}
	case "random":
		a.exact, a.valid = false, nil
		a.bytes = rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 80), rapid.Custom(func(t *rapid.T) []byte {
			words := rapid.SliceOfN(rapid.SampledFrom([]string{"get", "gets", "set", "mg", "ms", "md", "add", "cas", "incr", "touch", " ", " ", " ", "\r\n", "\r\n", "\n", "a", "0", "1", "3", "-1", "abc", "v", "f", "q", "k", "O1", "C", "T", "S", "F", "S1", "version", "flush_all", "verbosity", "\x80", "\x80\x01", "99999999999", "noreply", "mn", "quit", "stats"}), 1, 24).Draw(t, "words")
			return []byte(strings.Join(words, ""))
		}), rapid.Custom(func(t *rapid.T) []byte {
			h := rapid.SliceOfN(rapid.Byte(), 24, 24).Draw(t, "header")
			h[0] = 0x80
			h[1] = rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 5, 6, 8, 0xa, 0xb, 0xd, 0x1c, h[1]}).Draw(t, "opcode")
			if rapid.Bool().Draw(t, "short") {
				h[2], h[8], h[9], h[10] = 0, 0, 0, 0
			}
			return append(h, rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "body")...)
		})).Draw(t, "bytes")
	}
	return a
}

// run sends the attack and waits until the server is done with it.
func (a attack) start(t *rapid.T, c *hx.Child) (finish func() string) {
	fail := func(format string, args ...interface{}) func() string {
		return func() string { return fmt.Sprintf(format, args...) }
	}
	conn, err := c.Dial()
	if err != nil {
		if d := c.DeadSoon(); d != "" {
			return fail("%s", d)
		}
		return fail("connect: %v", err)
	}
	done := make(chan error, 1)
	go func() {
		_, err := io.Copy(io.Discard, conn)
		done <- err
	}()
	conn.SetWriteDeadline(time.Now().Add(hx.CallLimit()))
	for i, s := range hx.Cut(a.bytes, a.segs) {
		if _, err := conn.Write(s); err != nil {
			break // the server closed it
		}
		if len(a.segs) > 0 && i < 200 {
			hx.WaitDrained(conn)
		}
	}
	return func() string {
		defer conn.Close()
		if a.end == "cuts" {
			return ""
		}
		conn.(*net.UnixConn).CloseWrite()
		select {
		case <-done:
			return ""
		case <-time.After(hx.CallLimit()):
			if d := c.Dead(); d != "" {
				return d
			}
			return "the connection is neither served nor closed"
		}
	}
}

// C23: attacks by one or several connections on a server process.
func TestC23_Bytes(t *testing.T) {
	defer endChild()
	hx.Check(t, 15000, 200000, func(t *rapid.T) {
		c := child()
		fatal := func(format string, args ...interface{}) {
			endChild()
			t.Fatalf(format, args...)
		}
		n := rapid.SampledFrom([]int{1, 1, 1, 1, 2, 3}).Draw(t, "connections")
		var as []attack
		var descs, labels []string
		for i := 0; i < n; i++ {
			prefix := ""
			if n > 1 {
				prefix = string(rune('A' + i))
			}
			a := drawAttack(t, prefix)
			as = append(as, a)
			descs = append(descs, a.String())
			labels = append(labels, a.what, a.end)
		}
		desc := strings.Join(descs, " || ")
		if msg := c.Canary(); msg != "" {
			fatal("before %s: %s", desc, msg)
		}
		var finish []func() string
		for _, a := range as {
			finish = append(finish, a.start(t, c))
			if a.end == "stays" {
				// while the connection hangs in the middle
				if msg := c.Canary(); msg != "" {
					fatal("%s: %s", desc, msg)
				}
			}
		}
		for _, f := range finish {
			if msg := f(); msg != "" {
				fatal("%s: %s", desc, msg)
			}
		}
		if msg := c.Canary(); msg != "" {
			fatal("%s: %s", desc, msg)
		}
		got, msg := c.Take()
		if msg != "" {
			fatal("%s: %s", desc, msg)
		}
		if d := c.Dead(); d != "" {
			fatal("%s: %s", desc, d)
		}
		per := func(i int) (out []*server.Request) {
			if n == 1 {
				return got
			}
			for _, r := range got {
				k := r.Key
				if r.Keys != nil {
					k = r.Keys[0]
				}
				if len(k) > 0 && k[0] == byte('A'+i) {
					out = append(out, r)
				}
			}
			return out
		}
		check := func() string {
			for i, a := range as {
				g := per(i)
				if !a.exact && len(g) > len(a.valid) {
					g = g[:len(a.valid)]
				}
				if a.end == "cuts" && len(g) < len(a.valid) {
					// The server may have failed to answer and given up.
					if msg := matchStream(a.valid[:len(g)], g); msg != "" {
						return fmt.Sprintf("connection %d: %s", i, msg)
					}
					continue
				}
				if msg := matchStream(a.valid, g); msg != "" {
					return fmt.Sprintf("connection %d: %s", i, msg)
				}
			}
			return ""
		}
		if msg := check(); msg != "" {
			fatal("%s: %s", desc, msg)
		}
		hx.Case(desc, len(as[0].bytes) > 0, labels...)
	})
}

// drawCutLarge draws a request with a large value of which the end is missing.
func drawCutLarge(t *rapid.T) (raw []byte, what string) {
	size := rapid.OneOf(rapid.IntRange(1<<20-5, 1<<20+5), rapid.IntRange(1<<20, 3<<20)).Draw(t, "size")
	form := rapid.SampledFrom([]string{"set k 0 0 %d\r\n", "replace k 0 0 %d\r\n", "ms k %d\r\n", "ms k 1 S%d\r\n", "bin"}).Draw(t, "form")
	if form == "bin" {
		raw = hx.BinReq(1, 1, 0, make([]byte, 8), "k", hx.Fill(size, 1))
	} else {
		raw = append(append([]byte(fmt.Sprintf(form, size)), hx.Fill(size, 1)...), "\r\n"...)
	}
	missing := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, size)).Draw(t, "missing")
	return raw[:len(raw)-missing], fmt.Sprintf("%q of %d bytes without the last %d", form, size, missing)
}

// C23: lengths that nobody sends, on several connections at once.
func TestC23_Lies(t *testing.T) {
	defer endChild()
	hx.Check(t, 100, 3000, func(t *rapid.T) {
		c := child()
		n := rapid.IntRange(2, 8).Draw(t, "connections")
		var conns []net.Conn
		desc := ""
		for i := 0; i < n; i++ {
			big := rapid.SampledFrom([]int64{1<<31 - 1, 1<<31 - 3, 1 << 30, 1500000000}).Draw(t, "length")
			if rapid.IntRange(0, 3).Draw(t, "cut") == 0 {
				raw, what := drawCutLarge(t)
				desc += what + "; "
				conn, err := c.Dial()
				if err != nil {
					break
				}
				conns = append(conns, conn)
				conn.SetWriteDeadline(time.Now().Add(hx.CallLimit()))
				conn.Write(raw)
				continue
			}
			raw := rapid.SampledFrom([]string{"set k 0 0 %d\r\n", "add k 0 0 %d\r\n", "ms k %d\r\n", "ms k 1 S%d\r\n", "cas k 0 0 %d 7\r\n", "bin"}).Draw(t, "request")
			if raw == "bin" {
				b := hx.BinReq(1, 1, 0, make([]byte, 8), "k", nil)
				binary.BigEndian.PutUint32(b[8:], uint32(big)*2)
				raw = string(b)
			} else {
				raw = fmt.Sprintf(raw, big)
			}
			some := rapid.IntRange(0, 3000).Draw(t, "some")
			desc += fmt.Sprintf("%s and %d bytes; ", hx.Q([]byte(raw)), some)
			raw += strings.Repeat("x", some)
			conn, err := c.Dial()
			if err != nil {
				break
			}
			conns = append(conns, conn)
			conn.Write([]byte(raw))
			hx.WaitDrained(conn)
		}
		msg := c.Canary()
		for _, conn := range conns {
			conn.(*net.UnixConn).CloseWrite()
		}
		for _, conn := range conns {
			conn.SetReadDeadline(time.Now().Add(hx.CallLimit()))
			if _, err := io.Copy(io.Discard, conn); err != nil && msg == "" {
				msg = fmt.Sprintf("the connection is neither served nor closed: %v", err)
			}
			conn.Close()
		}
		if msg == "" {
			msg = c.Canary()
		}
		var got []*server.Request
		if msg == "" {
			got, msg = c.Take()
		}
		if msg == "" && len(got) > 0 {
			msg = "reached the handler: " + hx.ReqString(got[0])
		}
		if d := c.Dead(); d != "" {
			msg = d
		}
		if msg != "" {
			endChild()
			t.Fatalf("%d connections announce more than they send: %s: %s", n, desc, msg)
		}
		hx.Case(desc, true, "lying lengths at once")
	})
}

// C23: any number of clients that do nothing, or stop in the middle of a
// request, leave room for others.
func TestC23_ManyIdle(t *testing.T) {
	defer endChild()
	hx.Check(t, 2, 12, func(t *rapid.T) {
		c := child()
		n := rapid.SampledFrom([]int{150, 400, 1100, 2500}).Draw(t, "connections")
		var lim syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err == nil && uint64(n) > lim.Cur/3 {
			n = int(lim.Cur / 3)
		}
		lines := []string{"", "g", "get", "get k", "set k 0 0 10\r\n", "set k 0 0 10\r\nabc", "mg k", "ms k 3\r\nab", "\x80", "\x80\x01\x00\x01\x08\x00\x00\x00\x00\x00\x00\x20", "get k\r\n"}
		what := rapid.SliceOfN(rapid.SampledFrom(lines), 1, 4).Draw(t, "sent")
		desc := fmt.Sprintf("%d connections stay open after sending %q", n, what)
		fatal := func(format string, args ...interface{}) {
			endChild()
			t.Fatalf(format, args...)
		}
		var conns []net.Conn
		answered := 0
		for i := 0; i < n; i++ {
			conn, err := c.Dial()
			if err != nil {
				if d := c.DeadSoon(); d != "" {
					fatal("%s: %s", desc, d)
				}
				fatal("%s: connection %d: %v", desc, i, err)
			}
			defer conn.Close()
			conns = append(conns, conn)
			s := what[i%len(what)]
			conn.Write([]byte(s))
			if strings.HasSuffix(s, "get k\r\n") {
				answered++
			}
		}
		if msg := c.Canary(); msg != "" {
			fatal("%s: %s", desc, msg)
		}
		// one that comes late
		conn, err := c.Dial()
		if err != nil {
			fatal("%s: one more: %v", desc, err)
		}
		conns = append(conns, conn)
		conn.SetDeadline(time.Now().Add(hx.CallLimit()))
		conn.Write([]byte("get late\r\n"))
		if l, err := bufio.NewReader(conn).ReadString('\n'); err != nil || !strings.HasPrefix(l, "VALUE late ") && l != "END\r\n" {
			fatal("%s: one that came later got %q, %v", desc, l, err)
		}
		for _, conn := range conns {
			conn.Close()
		}
		got, msg := c.Take()
		if msg != "" {
			fatal("%s: %s", desc, msg)
		}
		if len(got) != answered+1 {
			fatal("%s: %d requests reached the handler, %d were sent", desc, len(got), answered+1)
		}
		hx.Case(desc, true, "idle connections")
	})
}

// C23: more connections than the process may have open.
func TestC23_TooMany(t *testing.T) {
	hx.Check(t, 4, 60, func(t *rapid.T) {
		limit := rapid.IntRange(24, 120).Draw(t, "limit")
		over := rapid.SampledFrom([]int{1, 2, 10, 100}).Draw(t, "over")
		sent := rapid.SampledFrom([]string{"", "g", "get k\r\n", "set k 0 0 10\r\nabc", "\x80"}).Draw(t, "sent")
		rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
		c := hx.NewChildWith(fmt.Sprintf("HX_CHILD_NOFILE=%d", limit))
		defer c.Close()
		desc := fmt.Sprintf("%d rounds of %d connections, each sending %q, to a process that may have %d files", rounds, limit+over, sent, limit)
		if msg := c.Canary(); msg != "" {
			t.Fatalf("%s: at first: %s", desc, msg)
		}
		for r := 1; r <= rounds; r++ {
			var conns []net.Conn
			for i := 0; i < limit+over; i++ {
				conn, err := c.Dial()
				if err != nil {
					if d := c.DeadSoon(); d != "" {
						t.Fatalf("%s: round %d: %s", desc, r, d)
					}
					t.Fatalf("%s: round %d: connection %d: %v", desc, r, i, err)
				}
				defer conn.Close()
				conns = append(conns, conn)
				conn.Write([]byte(sent))
			}
			time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 20, 200}).Draw(t, "wait_ms")) * time.Millisecond)
			if msg := c.Canary(); msg != "" {
				t.Fatalf("%s: round %d: %s", desc, r, msg)
			}
			for _, conn := range conns {
				conn.Close()
			}
			// There is room again.
			conn, err := c.Dial()
			if err != nil {
				t.Fatalf("%s: round %d: one that came later: %v", desc, r, err)
			}
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(hx.CallLimit()))
			conn.Write([]byte("get late\r\n"))
			if l, err := bufio.NewReader(conn).ReadString('\n'); err != nil || !strings.HasPrefix(l, "VALUE late ") && l != "END\r\n" {
				if d := c.DeadSoon(); d != "" {
					t.Fatalf("%s: round %d: %s", desc, r, d)
				}
				t.Fatalf("%s: round %d: one that came later got %q, %v", desc, r, l, err)
			}
			conn.Close()
			if msg := c.Canary(); msg != "" {
				t.Fatalf("%s: after round %d: %s", desc, r, msg)
			}
		}
		hx.Case(desc, true, "more connections than files")
	})
}

// C23: connections that have ended leave nothing behind.
func TestC23_Gone(t *testing.T) {
	hx.Check(t, 12, 200, func(t *rapid.T) {
		c := hx.NewChildWith("HX_CHILD_FORGET=1")
		defer c.Close()
		n := 2000
		var sent [][]byte
		var descs []string
		for i := rapid.IntRange(1, 5).Draw(t, "kinds"); i > 0; i-- {
			a := drawAttack(t, "")
			if rapid.Bool().Draw(t, "nothing else") {
				a.bytes = streamBytes(a.valid)
			}
			sent = append(sent, a.bytes[:min(len(a.bytes), 100000)])
			descs = append(descs, a.String())
		}
		desc := fmt.Sprintf("%d connections that send one of %s", n, strings.Join(descs, " | "))
		round := func(n int) {
			var wg sync.WaitGroup
			var mu sync.Mutex
			bad := ""
			for w := 0; w < 10; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := w; i < n; i += 10 {
						mu.Lock()
						stop := bad != ""
						conn, err := c.Dial()
						if err != nil {
							bad = fmt.Sprintf("connect: %v", err)
						}
						mu.Unlock()
						if stop || err != nil {
							return
						}
						conn.SetDeadline(time.Now().Add(hx.CallLimit()))
						conn.Write(sent[i%len(sent)])
						if i%3 > 0 { // else leave at once
							conn.(*net.UnixConn).CloseWrite()
							if _, err := io.Copy(io.Discard, conn); err != nil && errors.Is(err, os.ErrDeadlineExceeded) {
								mu.Lock()
								bad = "a connection is neither served nor closed"
								mu.Unlock()
							}
						}
						conn.Close()
					}
				}()
			}
			wg.Wait()
			if d := c.Dead(); d != "" {
				bad = d
			}
			if bad == "" {
				_, bad = c.Take()
			}
			if bad == "" {
				bad = c.Canary()
			}
			if bad != "" {
				t.Fatalf("%s: %s", desc, bad)
			}
		}
		round(n)
		g0, h0, msg := c.Left()
		if msg != "" {
			t.Fatalf("%s: %s", desc, msg)
		}
		round(n)
		g, h := 0, int64(0)
		ok := hx.WaitFor(hx.CallLimit(), func() bool {
			g, h, msg = c.Left()
			return msg != "" || g <= g0+n/10 && h <= h0+int64(n)*200
		})
		if msg != "" {
			t.Fatalf("%s: %s", desc, msg)
		}
		if !ok {
			t.Fatalf("%s: after they have all ended the server has %d goroutines, %d before, and %d bytes, %d before", desc, g, g0, h, h0)
		}
		hx.Case(desc, true, "ended connections")
	})
}
