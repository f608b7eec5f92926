package hx

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"
	"pgregory.net/rapid"
)

// Answer is what a scripted handler answers.
type Answer struct {
	Res []*server.Response
	Err error // of the whole call
	// Loose is for answers that were not scripted: a CAS of 0 stands for any
	// token, and lifetimes have the clock's tolerance.
	Loose bool
}

func (a Answer) String() string {
	if a.Err != nil {
		return "error " + strconv.Quote(a.Err.Error())
	}
	var s []string
	for _, r := range a.Res {
		if r.Error != nil {
			s = append(s, fmt.Sprintf("%T %s", r.Error, Q([]byte(r.Error.Error()))))
		} else {
			s = append(s, fmt.Sprintf("{%q %s f=%x cas=%d t=%d}", r.Key, Q(r.Value), r.Flags, uint64(r.Cas), r.TTL))
		}
	}
	if len(s) > 4 {
		s = append(s[:4], "...")
	}
	return "[" + strings.Join(s, " ") + "]"
}

// drawError makes an error that a handler may put into a response.
// DrawError makes an error of a handler.
func DrawError(t *rapid.T) error {
	msg := rapid.SampledFrom([]string{"", "x", "Key not found", "out of memory", "two\r\nlines", "STORED", "a\nEND\r\n", "\r\n", "%d%s", strings.Repeat("long ", 100)}).Draw(t, "message")
	switch rapid.IntRange(0, 7).Draw(t, "errkind") {
	case 0, 1:
		return merrors.ItemNotFound
	case 2:
		return merrors.ItemExists
	case 3:
		return rapid.SampledFrom([]error{errors.New(msg), errors.New(msg), io.EOF, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, context.Canceled, net.ErrClosed,
			&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, &net.OpError{Op: "write", Net: "unix", Err: syscall.EPIPE}}).Draw(t, "plain")
	case 4:
		return fmt.Errorf("wrapped: %w", rapid.SampledFrom([]error{merrors.ItemNotFound, merrors.ItemExists, io.EOF}).Draw(t, "inner"))
	}
	return &merrors.MemcachedError{Status: rapid.SampledFrom([]uint16{1, 2, 3, 4, 5, 6, 7, 8, 9, 0x20, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0xffff}).Draw(t, "status"), Message: msg}
}

func drawHit(t *rapid.T, key string) *server.Response {
	r := &server.Response{Key: key, Value: ServedValue().Draw(t, "rvalue"), Flags: FlagBytes().Draw(t, "rflags"), TTL: rapid.SampledFrom([]int64{-1, 0, 1, 1000, 2592001, 1<<31 - 1}).Draw(t, "ttl")}
	if rapid.Bool().Draw(t, "rhascas") {
		r.Cas = int64(CasToken().Draw(t, "rcas"))
	}
	return r
}

// DrawAnswer makes the answer to a request.
func DrawAnswer(t *rapid.T, w WireReq) Answer {
	failed := func() Answer { return Answer{Res: []*server.Response{{Error: DrawError(t)}}} }
	if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
		return failed()
	}
	switch w.Op {
	case server.OpcodeGet:
		if w.Multi {
			res := []*server.Response{}
			seen := map[string]bool{}
			for i, k := range w.Keys {
				if seen[k] {
					continue
				}
				seen[k] = true
				if i >= 100 {
					if i%3 > 0 {
						res = append(res, &server.Response{Key: k, Value: []byte(k), Flags: U32(uint32(i)), Cas: int64(i), TTL: -1})
					}
					continue
				}
				switch rapid.IntRange(0, 5).Draw(t, "what") {
				case 0, 1, 2, 3:
					res = append(res, drawHit(t, k))
				case 4:
					res = append(res, &server.Response{Key: k, Error: merrors.ItemNotFound})
				}
			}
			if len(res) > 0 && rapid.IntRange(0, 7).Draw(t, "onefails") == 0 {
				res[rapid.IntRange(0, len(res)-1).Draw(t, "which")].Error = DrawError(t)
			}
			return Answer{Res: res}
		}
		switch rapid.IntRange(0, 5).Draw(t, "what") {
		case 0:
			return Answer{Res: []*server.Response{}}
		case 1:
			return Answer{Res: []*server.Response{{Error: merrors.ItemNotFound}}}
		}
		return Answer{Res: []*server.Response{drawHit(t, w.Keys[0])}}
	case server.OpcodeIncrement, server.OpcodeDecrement:
		n := rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 1 << 31, 1 << 32, 1 << 63, 1<<64 - 1}), rapid.Uint64()).Draw(t, "n")
		if w.Proto == Binary {
			b := make([]byte, 8)
			binary.BigEndian.PutUint64(b, n)
			return Answer{Res: []*server.Response{{Value: b, Cas: int64(CasToken().Draw(t, "rcas"))}}}
		}
		return Answer{Res: []*server.Response{{Value: []byte(strconv.FormatUint(n, 10))}}}
	case server.OpcodeVersion:
		return Answer{Res: []*server.Response{{Value: []byte("VERSION " + rapid.StringMatching(`[0-9]\.[0-9]{1,3}( [a-z]{1,5})?`).Draw(t, "version"))}}}
	}
	r := &server.Response{}
	if w.Proto == Binary && w.Op != server.OpcodeNoop && w.Op != server.OpcodeFlush {
		r.Cas = int64(CasToken().Draw(t, "rcas"))
	}
	return Answer{Res: []*server.Response{r}}
}

// status is the memcached status of an error, 0 when it has none; sure is
// false when it is wrapped.
func status(err error) (st uint16, sure bool) {
	if e, ok := err.(*merrors.MemcachedError); ok {
		return e.Status, true
	}
	var e *merrors.MemcachedError
	if errors.As(err, &e) {
		return e.Status, false
	}
	return 0, true
}

func isErrorLine(l string) bool {
	w := strings.SplitN(l, " ", 2)[0]
	return w == "ERROR" || w == "CLIENT_ERROR" || w == "SERVER_ERROR"
}

// Silent says whether the answer is the one that is not sent.
func (w WireReq) Silent(a Answer) bool {
	return w.Quiet && w.missed(a)
}

func (w WireReq) missed(a Answer) bool {
	if len(a.Res) == 0 {
		return true
	}
	st, _ := status(a.Res[0].Error)
	return a.Res[0].Error != nil && st == 1
}

// CheckAnswer reads one answer from the wire and compares it with what the
// handler said.
func (w WireReq) CheckAnswer(r *bufio.Reader, a Answer) string {
	bad := func(format string, args ...interface{}) string {
		return fmt.Sprintf("%s answered with %s: %s", w, a, fmt.Sprintf(format, args...))
	}
	if w.Proto == Binary {
		if msg := w.checkBinary(r, a); msg != "" {
			return bad("%s", msg)
		}
		return ""
	}
	line := func() (string, string) {
		l, err := r.ReadString('\n')
		if err != nil {
			return "", fmt.Sprintf("no answer, or half of one: %q, %v", l, err)
		}
		if !strings.HasSuffix(l, "\r\n") {
			return "", fmt.Sprintf("line %q does not end with CRLF", l)
		}
		l = l[:len(l)-2]
		if strings.Contains(l, "\r") {
			return "", fmt.Sprintf("line %q", l)
		}
		return l, ""
	}
	data := func(l string, want []byte) string {
		n, err := strconv.Atoi(l)
		if err != nil || n != len(want) {
			return fmt.Sprintf("length %q, the value has %d bytes", l, len(want))
		}
		b := make([]byte, n+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return fmt.Sprintf("value: %v", err)
		}
		if !bytes.Equal(b[:n], want) || string(b[n:]) != "\r\n" {
			return fmt.Sprintf("value on the wire is %s", Q(b))
		}
		return ""
	}
	// what went wrong, when the answer is an error
	var failure error
	for _, x := range a.Res {
		if st, _ := status(x.Error); x.Error != nil && !(w.Op == server.OpcodeGet && st == 1) {
			failure = x.Error
		}
	}
	l, msg := line()
	if msg != "" {
		return bad("%s", msg)
	}
	if w.Op == server.OpcodeGet && w.Cmd != "mg" {
		left := map[string]*server.Response{}
		for _, x := range a.Res {
			if x.Error == nil {
				left[x.Key] = x
			}
		}
		again, mentions := map[string]*server.Response{}, map[string]int{}
		for _, k := range w.Keys {
			mentions[k]++
		}
		for strings.HasPrefix(l, "VALUE ") {
			f := strings.Split(l, " ")
			want := 4
			if w.Cmd == "gets" {
				want = 5
			}
			if len(f) != want {
				return bad("%q", l)
			}
			x := left[f[1]]
			if x == nil {
				x = again[f[1]]
				delete(again, f[1])
			}
			if x == nil {
				return bad("%q for an item that was not in the answer", l)
			}
			delete(left, f[1])
			if mentions[f[1]]--; a.Loose && mentions[f[1]] > 0 {
				again[f[1]] = x // a key listed several times may be answered as often
			}
			if f[2] != strconv.FormatUint(uint64(FlagWord(x.Flags)), 10) {
				return bad("%q: flags", l)
			}
			if a.Loose && x.Cas == 0 && want == 5 {
				if n, err := strconv.ParseUint(f[4], 10, 64); err != nil || n == 0 {
					return bad("%q: CAS", l)
				}
			} else if want == 5 && f[4] != strconv.FormatUint(uint64(x.Cas), 10) {
				return bad("%q: CAS", l)
			}
			if msg := data(f[3], x.Value); msg != "" {
				return bad("%s", msg)
			}
			if l, msg = line(); msg != "" {
				return bad("%s", msg)
			}
		}
		if failure != nil {
			if !isErrorLine(l) && !w.plausible(l, failure) {
				return bad("%q", l)
			}
			return ""
		}
		if l != "END" || len(left) > 0 {
			return bad("%q with %d items missing", l, len(left))
		}
		return ""
	}
	if failure != nil {
		if !w.plausible(l, failure) {
			return bad("%q", l)
		}
		return ""
	}
	if w.Cmd == "mg" {
		f := strings.Split(l, " ")
		if w.missed(a) {
			if f[0] != "EN" {
				return bad("%q", l)
			}
			if msg := w.checkTokens(f[1:], nil, false); msg != "" {
				return bad("%q: %s", l, msg)
			}
			return ""
		}
		x := a.Res[0]
		if w.Token('v') {
			if f[0] != "VA" || len(f) < 2 {
				return bad("%q", l)
			}
			if msg := w.checkTokens(f[2:], x, a.Loose); msg != "" {
				return bad("%q: %s", l, msg)
			}
			if msg := data(f[1], x.Value); msg != "" {
				return bad("%s", msg)
			}
			return ""
		}
		if f[0] != "HD" {
			return bad("%q", l)
		}
		if msg := w.checkTokens(f[1:], x, a.Loose); msg != "" {
			return bad("%q: %s", l, msg)
		}
		return ""
	}
	want := ""
	switch w.Op {
	case server.OpcodeSet, server.OpcodeAdd, server.OpcodeReplace:
		want = "STORED"
	case server.OpcodeDelete:
		want = "DELETED"
	case server.OpcodeTouch:
		want = "TOUCHED"
	case server.OpcodeFlush:
		want = "OK"
	default:
		want = string(a.Res[0].Value)
	}
	if w.Proto == Meta {
		f := strings.Split(l, " ")
		if f[0] != "HD" {
			return bad("%q", l)
		}
		if msg := w.checkTokens(f[1:], nil, false); msg != "" {
			return bad("%q: %s", l, msg)
		}
		return ""
	}
	if l != want {
		return bad("%q, want %q", l, want)
	}
	return ""
}

// checkTokens compares the flags of a meta answer with what was asked for; x
// is nil when there is no item to tell about.
func (w WireReq) checkTokens(got []string, x *server.Response, loose bool) string {
	want := map[byte]string{}
	for _, f := range w.Tokens {
		switch {
		case f[0] == 'k':
			want['k'] = "k" + w.Keys[0]
		case f[0] == 'O':
			want['O'] = f
		case x == nil:
		case f[0] == 'c':
			want['c'] = "c" + strconv.FormatUint(uint64(x.Cas), 10)
		case f[0] == 'f':
			want['f'] = "f" + strconv.FormatUint(uint64(FlagWord(x.Flags)), 10)
		case f[0] == 's':
			want['s'] = "s" + strconv.Itoa(len(x.Value))
		case f[0] == 't':
			want['t'] = "t" + strconv.FormatInt(x.TTL, 10)
		}
	}
	for _, g := range got {
		if g == "" {
			return "empty flag"
		}
		if (g[0] == 'h' || g[0] == 'l') && w.Token(g[0]) && x != nil {
			continue // the handler does not say; any value will do
		}
		if loose && x != nil && want[g[0]] != "" {
			n, err := strconv.ParseInt(g[1:], 10, 64)
			if g[0] == 'c' && x.Cas == 0 && n != 0 && err == nil ||
				g[0] == 't' && x.TTL >= 0 && err == nil && n <= x.TTL+TTLSlack() && n >= x.TTL-TTLSlack() {
				delete(want, g[0])
				continue
			}
		}
		if want[g[0]] != g {
			return fmt.Sprintf("flag %q, want %q", g, want[g[0]])
		}
		delete(want, g[0])
	}
	for _, v := range want {
		return fmt.Sprintf("flag %q is missing", v)
	}
	return ""
}

// plausible says whether an error line tells what the error is.
func (w WireReq) plausible(l string, err error) bool {
	st, sure := status(err)
	store := w.Op == server.OpcodeSet || w.Op == server.OpcodeAdd || w.Op == server.OpcodeReplace
	if !sure && isErrorLine(l) {
		return true
	}
	if w.Proto == Meta && w.Op != server.OpcodeGet {
		f := strings.Split(l, " ")
		if code := map[uint16]string{1: "NF", 2: "EX", 5: "NS"}[st]; code != "" {
			return f[0] == code && w.checkTokens(f[1:], nil, false) == ""
		}
		return isErrorLine(l)
	}
	switch {
	case st == 1 && store:
		return l == "NOT_FOUND" || l == "NOT_STORED"
	case st == 1 && (w.Op == server.OpcodeFlush || w.Op == server.OpcodeVersion):
		return l == "NOT_FOUND" || isErrorLine(l)
	case st == 1:
		return l == "NOT_FOUND"
	case st == 2 && w.Op == server.OpcodeSet:
		return l == "EXISTS"
	case st == 2:
		return l == "EXISTS" || l == "NOT_STORED" || isErrorLine(l)
	case st == 5:
		return l == "NOT_STORED" || !store && isErrorLine(l)
	}
	return isErrorLine(l)
}

func (w WireReq) checkBinary(r *bufio.Reader, a Answer) string {
	if w.Silent(a) {
		if st, sure := uint16(1), true; len(a.Res) > 0 {
			if st, sure = status(a.Res[0].Error); !sure && st == 1 {
				// a wrapped not-found may also be told as an error
				if h, err := r.Peek(24); err == nil && binary.BigEndian.Uint32(h[12:]) == w.Opaque && h[1] == w.Opcode && h[7] != 0 {
					n := int(binary.BigEndian.Uint32(h[8:]))
					r.Discard(24 + n)
				}
			}
		}
		return ""
	}
	h := make([]byte, 24)
	if n, err := io.ReadFull(r, h); err != nil {
		return fmt.Sprintf("no answer, or half of one: %x, %v", h[:n], err)
	}
	kl, el, tl := int(binary.BigEndian.Uint16(h[2:])), int(h[4]), int(binary.BigEndian.Uint32(h[8:]))
	if h[0] != 0x81 || h[5] != 0 || kl+el > tl || tl > 64<<20 {
		return fmt.Sprintf("header %x", h)
	}
	body := make([]byte, tl)
	if n, err := io.ReadFull(r, body); err != nil {
		return fmt.Sprintf("body has %d of %d bytes: %v", n, tl, err)
	}
	extras, key, value := body[:el], string(body[el:el+kl]), body[el+kl:]
	st, cas := binary.BigEndian.Uint16(h[6:]), binary.BigEndian.Uint64(h[16:])
	if h[1] != w.Opcode {
		return fmt.Sprintf("opcode %#x, want %#x", h[1], w.Opcode)
	}
	if o := binary.BigEndian.Uint32(h[12:]); o != w.Opaque {
		return fmt.Sprintf("opaque %#x, want %#x", o, w.Opaque)
	}
	x := &server.Response{Error: merrors.ItemNotFound}
	if len(a.Res) > 0 {
		x = a.Res[0]
	}
	if x.Error != nil {
		want, sure := status(x.Error)
		if st == 0 || sure && want != 0 && st != want {
			return fmt.Sprintf("status %#x, want %#x", st, want)
		}
		if (!sure || want == 0) && (st == 1 || st == 2 || st == 5) && st != want {
			return fmt.Sprintf("status %#x says something else", st)
		}
		return ""
	}
	if st != 0 {
		return fmt.Sprintf("status %#x", st)
	}
	if cas != uint64(x.Cas) && !(a.Loose && x.Cas == 0) {
		return fmt.Sprintf("CAS %d, want %d", cas, uint64(x.Cas))
	}
	if !bytes.Equal(value, x.Value) {
		return fmt.Sprintf("value %s, want %s", Q(value), Q(x.Value))
	}
	if key != "" && key != w.key() || key == "" && w.Quiet {
		return fmt.Sprintf("key %q", key)
	}
	if w.Op == server.OpcodeGet {
		if len(extras) != 4 || FlagWord(extras) != FlagWord(x.Flags) {
			return fmt.Sprintf("extras %x, want the flags %x", extras, x.Flags)
		}
	} else if len(extras) != 0 {
		return fmt.Sprintf("extras %x", extras)
	}
	return ""
}
