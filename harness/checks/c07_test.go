package checks

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// okReply is the proper success answer to a request, with a value that tells
// which key it belongs to.
func okReply(q *hx.Req) []byte {
	val := []byte("value-of-" + q.Key)
	if q.Binary {
		switch q.Opcode {
		case 0x00, 0x09:
			return hx.BinReply(q.Opcode, 0, q.Opaque, 11, []byte{0, 0, 0, 9}, "", val)
		case 0x0c, 0x0d:
			return hx.BinReply(q.Opcode, 0, q.Opaque, 11, []byte{0, 0, 0, 9}, q.Key, val)
		case 0x05, 0x06:
			return hx.BinReply(q.Opcode, 0, q.Opaque, 11, nil, "", []byte{0, 0, 0, 0, 0, 0, 0, 42})
		case 0x0b:
			return hx.BinReply(q.Opcode, 0, q.Opaque, 0, nil, "", []byte("1.2.3"))
		}
		return hx.BinReply(q.Opcode, 0, q.Opaque, 11, nil, "", nil)
	}
	switch q.Cmd {
	case "get", "gets":
		var b []byte
		for _, k := range q.Args {
			b = append(b, textValue(k)...)
		}
		return append(b, "END\r\n"...)
	case "mg":
		hasV := false
		var toks string
		for _, f := range q.Args[1:] {
			switch f[0] {
			case 'v':
				hasV = true
			case 'f':
				toks += " f9"
			case 'c':
				toks += " c11"
			case 't':
				toks += " t-1"
			case 'k':
				toks += " k" + q.Key
			case 's':
				toks += fmt.Sprintf(" s%d", len(val))
			case 'O':
				toks += " " + f
			}
		}
		if hasV {
			return []byte(fmt.Sprintf("VA %d%s\r\n%s\r\n", len(val), toks, val))
		}
		return []byte("HD" + toks + "\r\n")
	case "ma":
		return []byte("VA 2\r\n42\r\n")
	case "mn":
		return []byte("MN\r\n")
	case "ms", "md":
		return []byte("HD\r\n")
	case "set", "add", "replace", "cas":
		return []byte("STORED\r\n")
	case "delete":
		return []byte("DELETED\r\n")
	case "touch":
		return []byte("TOUCHED\r\n")
	case "incr", "decr":
		return []byte("42\r\n")
	case "flush_all":
		return []byte("OK\r\n")
	case "version":
		return []byte("VERSION 1.2.3\r\n")
	}
	return []byte("ERROR\r\n")
}

func textValue(k string) string {
	v := "value-of-" + k
	return fmt.Sprintf("VALUE %s 9 %d 11\r\n%s\r\n", k, len(v), v)
}

// refusal says how the scripted server refuses.
type refusal struct {
	text   string // line for text and meta requests, without CRLF
	status uint16 // binary
	extras []byte
	key    string
	body   []byte
	at     int  // getmulti: which answer is refused (text: after how many values)
	noop   bool // binary getmulti: the noop is refused
}

func (r refusal) String() string {
	if r.status != 0 {
		return fmt.Sprintf("status %d extras=%d key=%d body=%d at=%d noop=%v", r.status, len(r.extras), len(r.key), len(r.body), r.at, r.noop)
	}
	return fmt.Sprintf("%q at=%d", r.text, r.at)
}

var errorLines = []string{"ERROR", "CLIENT_ERROR bad data chunk", "CLIENT_ERROR", "SERVER_ERROR out of memory storing object", "SERVER_ERROR", "SERVER_ERROR object too large for cache",
	"CLIENT_ERROR cannot increment or decrement non-numeric value", "NOT_STORED", "EXISTS", "NOT_FOUND", "BUSY currently processing", "STORED", "DELETED", "TOUCHED", "OK", "NF", "EX", "NS", "EN", "END", "MN", "VERSION 9.9", "RESET", "EX c5", "NF kfoo", "ERROR 42", "SERVER_ERROR STORED", "SERVER_ERROR 42 END", "CLIENT_ERROR HD", "BADCLASS [error]", "NO"}

// successLine says whether the line is what the op's command is answered with
// on success, or makes no sense to exclude.
func successLine(proto, kind, line string) bool {
	w := strings.SplitN(line, " ", 2)[0]
	switch kind {
	case "get", "getmulti":
		if proto == hx.Meta {
			return w == "VA" || w == "MN"
		}
		return w == "VALUE"
	case "set":
		if proto == hx.Meta {
			return w == "HD"
		}
		return w == "STORED"
	case "add", "replace":
		return w == "STORED" || w == "HD"
	case "delete":
		if proto == hx.Meta {
			return w == "HD" || w == "NF" || w == "NOT_FOUND" || w == "DELETED"
		}
		return w == "DELETED"
	case "touch":
		if proto == hx.Meta {
			return w == "HD" || w == "TOUCHED"
		}
		return w == "TOUCHED"
	case "flush":
		return w == "OK"
	case "version":
		return w == "VERSION"
	}
	return false
}

// missKinds says which of ItemNotFound and ItemExists the refusal justifies.
func justified(proto, kind string, r refusal) map[string]bool {
	j := map[string]bool{hx.Other: true}
	if proto == hx.Binary {
		switch r.status {
		case 1:
			j[hx.NotFound] = true
		case 2:
			j[hx.Exists] = true
		case 5:
			if kind == "add" {
				j[hx.Exists] = true
			}
			if kind == "replace" {
				j[hx.NotFound] = true
			}
		}
		return j
	}
	switch w := strings.SplitN(r.text, " ", 2)[0]; w {
	case "NOT_FOUND", "NF", "EN", "END":
		j[hx.NotFound] = true
	case "EXISTS", "EX":
		j[hx.Exists] = true
	case "NOT_STORED", "NS":
		if kind == "add" {
			j[hx.Exists] = true
		}
		if kind == "replace" {
			j[hx.NotFound] = true
		}
	}
	return j
}

// C07: every refusal of a scripted server is an error, of the right kind, and
// the next calls get their own replies.
func TestC07_Refusals(t *testing.T) {
	hx.Check(t, 3000, 80000, func(t *rapid.T) {
		p := rapid.SampledFrom(hx.Protocols).Draw(t, "proto")
		kind := rapid.SampledFrom([]string{"get", "getmulti", "set", "casset", "add", "replace", "delete", "touch", "incr", "decr", "flush", "version"}).Draw(t, "op")
		o := hx.Op{Kind: kind, Key: "k0", Value: hx.SmallValue().Draw(t, "value"), Delta: 3}
		if rapid.IntRange(0, 3).Draw(t, "same") == 0 {
			// what the server answers when it is asked for the key
			o.Value = []byte("value-of-k0")
		}
		if kind == "casset" {
			o.Kind, o.Cas, kind = "set", 77, "set"
		}
		var r refusal
		if kind == "getmulti" {
			n := rapid.IntRange(1, 5).Draw(t, "keys")
			for i := 0; i < n; i++ {
				o.Keys = append(o.Keys, fmt.Sprintf("k%d", i))
			}
			r.at = rapid.IntRange(0, n-1).Draw(t, "at")
			if p == hx.Text {
				r.at = rapid.IntRange(0, n).Draw(t, "after")
			}
		}
		missing := map[string]bool{}
		for _, k := range o.Keys {
			if rapid.IntRange(0, 3).Draw(t, "miss") == 0 {
				missing[k] = true
			}
		}
		if p == hx.Binary {
			r.status = rapid.OneOf(rapid.SampledFrom([]uint16{1, 2, 3, 4, 5, 6, 7, 8, 9, 0x20, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x100, 0x8000, 0xffff}), rapid.Uint16Range(1, 0xffff)).Draw(t, "status")
			size := rapid.SampledFrom([]int{0, 0, 1, 8, 9, 24, 40, 4072, 4096, 5000, 70000}).Draw(t, "body")
			r.body = hx.Fill(size, byte(size))
			// a body that looks like a reply
			if rapid.IntRange(0, 3).Draw(t, "fakebody") == 0 {
				r.body = hx.BinReply(rapid.SampledFrom([]byte{0, 1, 0x0a, 0x0d, 0x0b}).Draw(t, "fake"), 0, 0, 5, nil, "", []byte("fake"))
			}
			if rapid.IntRange(0, 5).Draw(t, "extras") == 0 {
				r.extras = []byte{1, 2, 3, 4}
			}
			if rapid.IntRange(0, 5).Draw(t, "withkey") == 0 {
				r.key = "k0"
			}
			r.noop = kind == "getmulti" && rapid.IntRange(0, 4).Draw(t, "noop") == 0
			if kind == "getmulti" && r.status == 1 && !r.noop {
				r.status = 0x82 // a miss is not a refusal there
			}
		} else {
			r.text = rapid.OneOf(rapid.SampledFrom(errorLines), rapid.StringMatching(`(SERVER_ERROR|CLIENT_ERROR|ERROR)( [ -~]{0,60})?`), rapid.Custom(func(t *rapid.T) string {
				// with words in it that mean something elsewhere
				words := rapid.SliceOfN(rapid.SampledFrom(append([]string{"INDEX", "INFO", "SEND", "HTTP/1.1", "not found", "key exists"}, errorLines...)), 1, 3).Draw(t, "words")
				return rapid.SampledFrom([]string{"SERVER_ERROR ", "CLIENT_ERROR ", "ERROR ", "X", "-"}).Draw(t, "prefix") + strings.Join(words, rapid.SampledFrom([]string{" ", "", ": "}).Draw(t, "sep"))
			}), rapid.Custom(func(t *rapid.T) string {
				return "SERVER_ERROR " + strings.Repeat("x", rapid.SampledFrom([]int{100, 1000, 2000, 4081, 4082, 4083, 5000, 12000}).Draw(t, "long"))
			})).Draw(t, "line")
			if successLine(p, kind, r.text) {
				r.text = "SERVER_ERROR " + r.text
			}
			if kind == "getmulti" && (p == hx.Text && r.text == "END" || p == hx.Meta && strings.HasPrefix(r.text, "EN") && r.text != "END") {
				r.text = "SERVER_ERROR out of memory writing get response"
			}
		}
		split := rapid.SampledFrom([][]int{nil, {1}, {2}, {5, 1, 30}, {24, 1}}).Draw(t, "segments")

		armed := true
		seen := 0
		fs := hx.NewFakeServer(hx.Script(func(q *hx.Req) ([]byte, bool) {
			if !armed {
				return okReply(q), true
			}
			switch {
			case kind != "getmulti":
				armed = false
				if q.Binary {
					return hx.BinReply(q.Opcode, r.status, q.Opaque, 0, r.extras, r.key, r.body), true
				}
				return []byte(r.text + "\r\n"), true
			case p == hx.Text:
				armed = false
				var b string
				for i, k := range q.Args {
					if i < r.at && !missing[k] {
						b += textValue(k)
					}
				}
				return []byte(b + r.text + "\r\n"), true
			case p == hx.Meta:
				if q.Cmd == "mn" {
					armed = false
					return okReply(q), true
				}
				seen++
				if seen-1 == r.at {
					return []byte(r.text + "\r\n"), true
				}
				if missing[q.Key] {
					return []byte("EN\r\n"), true
				}
				return okReply(q), true
			}
			if q.Opcode == 0x0a {
				armed = false
				if r.noop {
					return hx.BinReply(q.Opcode, r.status, q.Opaque, 0, r.extras, r.key, r.body), true
				}
				return okReply(q), true
			}
			seen++
			if seen-1 == r.at && !r.noop {
				return hx.BinReply(q.Opcode, r.status, q.Opaque, 0, r.extras, r.key, r.body), true
			}
			if missing[q.Key] {
				return nil, true
			}
			return okReply(q), true
		}))
		defer fs.Close()
		rel := hx.NewRelay("unix", fs.Addr)
		defer rel.Close()
		rel.Segments(split)
		c := hx.MustDial(p, "srv", "unix", rel.Addr)
		defer closeQuiet(c)

		desc := fmt.Sprintf("%s.%s refused with %s", p, o, r)
		res := hx.Run(t, c, o)
		if res.Err == nil {
			t.Fatalf("%s: reported as success: %v", desc, res)
		}
		if !justified(p, kind, r)[res.Kind] {
			t.Fatalf("%s: reported as %v", desc, res)
		}
		// the following calls
		n := rapid.IntRange(1, 3).Draw(t, "then")
		for i := 0; i < n; i++ {
			k := rapid.SampledFrom([]string{"x", "yy", "k0", "k1"}).Draw(t, "thenkey")
			switch rapid.SampledFrom([]string{"get", "getmulti", "incr", "version", "set"}).Draw(t, "thenop") {
			case "get":
				g := hx.Run(t, c, hx.Op{Kind: "get", Key: k})
				if g.Err != nil || !bytes.Equal(g.Item.Value, []byte("value-of-"+k)) {
					t.Fatalf("%s: then get(%q): %v", desc, k, g)
				}
			case "getmulti":
				g := hx.Run(t, c, hx.Op{Kind: "getmulti", Keys: []string{k, "z"}})
				if g.Err != nil || len(g.Items) != 2 || string(g.Items[0].Value) != "value-of-"+g.Items[0].Key || string(g.Items[1].Value) != "value-of-"+g.Items[1].Key {
					t.Fatalf("%s: then getmulti(%q, z): %v", desc, k, g)
				}
			case "incr":
				if g := hx.Run(t, c, hx.Op{Kind: "incr", Key: k, Delta: 1}); g.Err != nil || g.N != 42 {
					t.Fatalf("%s: then incr: %v", desc, g)
				}
			case "version":
				if g := hx.Run(t, c, hx.Op{Kind: "version"}); g.Err != nil || g.Version != "1.2.3" {
					t.Fatalf("%s: then version: %v", desc, g)
				}
			case "set":
				if g := hx.Run(t, c, hx.Op{Kind: "set", Key: k}); g.Err != nil {
					t.Fatalf("%s: then set: %v", desc, g)
				}
			}
		}
		hx.Case(desc+fmt.Sprint(missing, split), true, "op:"+kind+":"+p, "reported:"+res.Kind)
	})
}

// C07: the reply to another operation, and what is no reply, is an error.
func TestC07_ForeignReply(t *testing.T) {
	own := map[string]byte{"get": 0x00, "set": 0x01, "add": 0x02, "replace": 0x03, "delete": 0x04, "incr": 0x05, "decr": 0x06, "flush": 0x08, "version": 0x0b, "touch": 0x1c}
	hx.Check(t, 300, 10000, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"get", "set", "add", "replace", "delete", "touch", "incr", "decr", "flush", "version"}).Draw(t, "op")
		o := hx.Op{Kind: kind, Key: "k0", Value: hx.SmallValue().Draw(t, "value"), Delta: 3}
		op := rapid.OneOf(rapid.SampledFrom([]byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x1c}), rapid.Byte()).Draw(t, "opcode")
		magic := rapid.SampledFrom([]byte{0x81, 0x81, 0x81, 0x80, 0x00, 0x82, 0x18, 'V', 'H', 0xff}).Draw(t, "magic")
		if magic != 0x81 && rapid.Bool().Draw(t, "own") {
			op = own[kind]
		}
		if magic == 0x81 && op == own[kind] {
			op ^= 1
		}
		var extras []byte
		if rapid.Bool().Draw(t, "extras") {
			extras = []byte{0, 0, 0, 9}
		}
		body := rapid.SampledFrom([][]byte{nil, []byte("1.2.3"), {0, 0, 0, 0, 0, 0, 0, 42}, []byte("value-of-k0"), hx.Fill(5000, 1)}).Draw(t, "body")
		reply := hx.BinReply(op, 0, 0, 11, extras, "", body)
		reply[0] = magic
		fs := hx.NewFakeServer(hx.Script(func(q *hx.Req) ([]byte, bool) { return reply, true }))
		defer fs.Close()
		c := hx.MustDial(hx.Binary, "srv", "unix", fs.Addr)
		defer closeQuiet(c)
		desc := fmt.Sprintf("%s answered with magic %#x opcode %#x, %d extras, body of %d", o, magic, op, len(extras), len(body))
		if res := hx.Run(t, c, o); res.Kind != hx.Other {
			t.Fatalf("%s: reported as %v", desc, res)
		}
		hx.Case(desc, true, "foreign:"+kind)
	})
}
