package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"strconv"
	"strings"
	"testing"

	"go.f110.dev/go-memcached/client"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

var oddNumbers = []string{"0", "1", "-1", "-2", "3", "5", "10", "4096", "65536", "1048576", "1048577", "2147483645", "2147483646", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807",
	"9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "", "+5", "0x10", "1e3", "NaN", " ", "５"}

// replyBytes generates a reply for an operation: a well-formed one, one with
// odd fields, or bytes, then damaged.
func replyBytes(t *rapid.T, p, kind string) []byte {
	num := func(n string) string {
		if rapid.IntRange(0, 4).Draw(t, "odd") == 0 {
			return rapid.SampledFrom(oddNumbers).Draw(t, "num")
		}
		return n
	}
	var b []byte
	blocks := rapid.IntRange(1, 4).Draw(t, "blocks")
	for i := 0; i < blocks; i++ {
		val := hx.SmallValue().Draw(t, "value")
		key := fmt.Sprintf("k%d", i)
		if p == hx.Binary {
			op := map[string]byte{"get": 0, "getmulti": 0x0d, "set": 1, "add": 2, "replace": 3, "delete": 4, "incr": 5, "decr": 6, "flush": 8, "version": 0x0b, "touch": 0x1c}[kind]
			if kind == "getmulti" && i == blocks-1 && blocks > 1 {
				op = 0x0a
			}
			ex, k := []byte{0, 0, 0, 1}, ""
			if kind == "getmulti" {
				k = key
			}
			if kind != "get" && kind != "getmulti" || op == 0x0a {
				ex, k = nil, ""
			}
			if kind == "incr" || kind == "decr" {
				val = hx.Fill(rapid.SampledFrom([]int{8, 8, 0, 1, 7, 9, 16}).Draw(t, "numlen"), 3)
			}
			ex = ex[:rapid.SampledFrom([]int{len(ex), len(ex), len(ex), 0}).Draw(t, "extras")]
			r := hx.BinReply(op, 0, 0, 7, ex, k, val)
			// lie in the header
			for n := rapid.IntRange(0, 2).Draw(t, "lies"); n > 0; n-- {
				switch rapid.SampledFrom([]string{"opcode", "keylen", "extlen", "status", "total", "magic"}).Draw(t, "lie") {
				case "opcode":
					r[1] = rapid.Byte().Draw(t, "v")
				case "keylen":
					binary.BigEndian.PutUint16(r[2:], rapid.OneOf(rapid.SampledFrom([]uint16{0, 1, 2, 4, 250, 0x7fff, 0xffff}), rapid.Uint16()).Draw(t, "v"))
				case "extlen":
					r[4] = rapid.OneOf(rapid.SampledFrom([]byte{0, 1, 3, 4, 5, 8, 255}), rapid.Byte()).Draw(t, "v")
				case "status":
					binary.BigEndian.PutUint16(r[6:], rapid.OneOf(rapid.SampledFrom([]uint16{0, 1, 2, 5, 0x81}), rapid.Uint16()).Draw(t, "v"))
				case "total":
					binary.BigEndian.PutUint32(r[8:], rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 3, 4, 7, 8, 24, 1 << 20, 1<<20 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}), rapid.Uint32()).Draw(t, "v"))
				case "magic":
					r[0] = rapid.Byte().Draw(t, "v")
				}
			}
			b = append(b, r...)
			continue
		}
		nl := rapid.SampledFrom([]string{"\r\n", "\r\n", "\r\n", "\r\n", "\r\n", "\n", "\r", "", " \r\n", "\r\n\r\n"}).Draw(t, "nl")
		end := rapid.SampledFrom([]string{"\r\n", "\r\n", "\r\n", "\r\n", "\n", "", "xx", "\r\nEND\r\n"}).Draw(t, "end")
		var line string
		switch {
		case (kind == "get" || kind == "getmulti") && p == hx.Text:
			f := []string{"VALUE", key, num("1"), num(strconv.Itoa(len(val)))}
			if rapid.IntRange(0, 3).Draw(t, "cas") > 0 {
				f = append(f, num("12"))
			}
			if n := rapid.IntRange(0, 8).Draw(t, "fields"); n < 3 {
				f = f[:rapid.IntRange(0, len(f)).Draw(t, "drop")]
			} else if n == 3 {
				f = append(f, "extra", "9")
			}
			line = strings.Join(f, rapid.SampledFrom([]string{" ", " ", " ", " ", "  ", "\t"}).Draw(t, "sep"))
		case kind == "get" || kind == "getmulti" || kind == "touch" && p == hx.Meta:
			f := []string{rapid.SampledFrom([]string{"VA", "VA", "VA", "VA", "HD", "VAX", "V", "EN", "va"}).Draw(t, "word")}
			f = append(f, num(strconv.Itoa(len(val))))
			for n := rapid.IntRange(0, 6).Draw(t, "flags"); n > 0; n-- {
				f = append(f, rapid.SampledFrom([]string{"f", "c", "t", "k", "s", "W", "Z", "X", "O", "h", "l", "", "q", "\x00", "é"}).Draw(t, "flag")+num("1"))
			}
			if rapid.IntRange(0, 5).Draw(t, "drop") == 0 {
				f = f[:rapid.IntRange(0, len(f)).Draw(t, "fields")]
			}
			line = strings.Join(f, rapid.SampledFrom([]string{" ", " ", " ", " ", "  "}).Draw(t, "sep"))
		case kind == "incr" || kind == "decr":
			line, val, end = num("5"), nil, ""
		default:
			line, val, end = rapid.SampledFrom(append([]string{"", " ", "S", "STORED\x00", "VERSION", "VERSION "}, errorLines...)).Draw(t, "line"), nil, ""
		}
		b = append(b, line...)
		b = append(b, nl...)
		b = append(b, val...)
		b = append(b, end...)
	}
	if p != hx.Binary {
		b = append(b, rapid.SampledFrom([]string{"", "END\r\n", "MN\r\n", "END\n", "EN\r\n", "M", "\r\n", "ERROR\r\n"}).Draw(t, "tail")...)
	}
	return damage(t, b)
}

func damage(t *rapid.T, b []byte) []byte {
	for n := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 4}).Draw(t, "damages"); n > 0 && len(b) > 0; n-- {
		i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		switch rapid.SampledFrom([]string{"cut", "flip", "set", "del", "dup", "ins"}).Draw(t, "damage") {
		case "cut":
			b = b[:i]
		case "flip":
			b[i] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
		case "set":
			b[i] = rapid.SampledFrom([]byte{0, ' ', '\r', '\n', '0', '9', '-', 'V', 'E', 0x80, 0x81, 0xff}).Draw(t, "to")
		case "del":
			j := i + rapid.IntRange(1, 8).Draw(t, "n")
			if j > len(b) {
				j = len(b)
			}
			b = append(append([]byte{}, b[:i]...), b[j:]...)
		case "dup":
			b = append(append(append([]byte{}, b[:i]...), b...), b[i:]...)
		case "ins":
			b = append(append(append([]byte{}, b[:i]...), rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "bytes")...), b[i:]...)
		}
	}
	return b
}

var fuzzServer *hx.FakeServer

// serveOnce answers the first operation on a connection with fixed bytes and
// closes.
func serveOnce(kind string, reply []byte) func(net.Conn) {
	return func(c net.Conn) {
		hx.Script(func(q *hx.Req) ([]byte, bool) {
			if kind == "getmulti" && (q.Cmd == "mg" || q.Binary && q.Opcode != 0x0a) {
				return nil, true // until the terminating request
			}
			return reply, false
		})(c)
	}
}

// contained says whether the reply holds the item.
func contained(p, kind string, it *client.Item, reply []byte) string {
	if it == nil {
		return "nil item without an error"
	}
	if p != hx.Binary {
		word := "VALUE "
		if p == hx.Meta {
			word = "VA "
		}
		if !bytes.Contains(reply, []byte(word)) {
			return "no " + word + "in the reply"
		}
		if !bytes.Contains(reply, append(append([]byte("\n"), it.Value...), "\r\n"...)) {
			return "its value is not a data block of the reply"
		}
		if (p == hx.Text || kind == "getmulti") && !bytes.Contains(reply, []byte(it.Key)) {
			return "its key is not in the reply"
		}
		if it.Cas != 0 && !bytes.Contains(reply, []byte(strconv.FormatUint(it.Cas, 10))) {
			return "its CAS token is not in the reply"
		}
		return ""
	}
	for i := 0; i+24 <= len(reply); i++ {
		h := reply[i:]
		if h[0] != 0x81 || binary.BigEndian.Uint16(h[6:]) != 0 || binary.BigEndian.Uint64(h[16:]) != it.Cas {
			continue
		}
		tl, kl, el := uint64(binary.BigEndian.Uint32(h[8:])), uint64(binary.BigEndian.Uint16(h[2:])), uint64(h[4])
		if kl+el > tl || uint64(len(h)) < 24+tl {
			continue
		}
		body := h[24 : 24+tl]
		if bytes.Equal(body[el+kl:], it.Value) && bytes.Equal(body[:el], it.Flags) && (kind == "get" || string(body[el:el+kl]) == it.Key) {
			return ""
		}
	}
	return "no frame of the reply is this item"
}

// C11: no reply makes a client panic or invent an item.
func TestC11_Replies(t *testing.T) {
	hx.Check(t, 12000, 600000, func(t *rapid.T) {
		p := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		kind := rapid.SampledFrom([]string{"get", "get", "getmulti", "getmulti", "set", "add", "replace", "delete", "touch", "incr", "decr", "flush", "version"}).Draw(t, "op")
		var reply []byte
		switch rapid.IntRange(0, 9).Draw(t, "class") {
		case 0:
			reply = rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "bytes")
		case 1:
			// long lines and runs without an end
			reply = bytes.Repeat([]byte(rapid.SampledFrom([]string{"a", " ", "VA ", "VALUE ", "0", "\r", "\n", "\x81", "\x00", "VA 0\r\n\r\n"}).Draw(t, "unit")), rapid.SampledFrom([]int{1, 1000, 4095, 4096, 4097, 20000}).Draw(t, "times"))
			reply = append(reply, rapid.SampledFrom([]string{"", "\r\n", "\n"}).Draw(t, "end")...)
		case 2:
			// another operation's or protocol's reply
			reply = replyBytes(t, rapid.SampledFrom(hx.Protocols).Draw(t, "asproto"), rapid.SampledFrom([]string{"get", "getmulti", "set", "incr", "version"}).Draw(t, "asop"))
		default:
			reply = replyBytes(t, p, kind)
		}
		o := hx.Op{Kind: kind, Key: "k0", Value: []byte("v"), Delta: 1}
		if kind == "getmulti" {
			o.Keys = []string{"k0", "k1", "k2"}[:rapid.IntRange(1, 3).Draw(t, "keys")]
		}
		if fuzzServer == nil {
			fuzzServer = hx.NewFakeServer(nil)
		}
		fuzzServer.Serve(serveOnce(kind, reply))
		c := hx.MustDial(p, "srv", "unix", fuzzServer.Addr)
		defer closeQuiet(c)
		desc := fmt.Sprintf("%s.%s answered with %q", p, o, reply)
		var res hx.Result
		if msg := hx.Try(func() { res = hx.Do(c, o) }); msg != "" {
			t.Fatalf("%s: %s", desc, msg)
		}
		if res.Err == nil {
			switch kind {
			case "get":
				if msg := contained(p, kind, res.Item, reply); msg != "" {
					t.Fatalf("%s: returned %v: %s", desc, res, msg)
				}
			case "getmulti":
				for _, it := range res.Items {
					if msg := contained(p, kind, it, reply); msg != "" {
						t.Fatalf("%s: returned %v: %s", desc, res, msg)
					}
				}
			case "version":
				if !bytes.Contains(reply, []byte(res.Version)) {
					t.Fatalf("%s: returned %v", desc, res)
				}
			}
		}
		// one more call on the closed connection
		if msg := hx.Try(func() { hx.Do(c, hx.Op{Kind: "get", Key: "k0"}) }); msg != "" {
			t.Fatalf("%s: then get: %s", desc, msg)
		}
		out := res.Kind
		if len(res.Items) > 0 || res.Item != nil {
			out = "item"
		}
		hx.Case(desc, len(reply) > 0, "op:"+kind+":"+p, "outcome:"+out)
	})
}
