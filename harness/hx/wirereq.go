package hx

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"

	"go.f110.dev/go-memcached/server"
	"pgregory.net/rapid"
)

// WireReq is a generated request: its bytes and what they mean.
type WireReq struct {
	Raw    []byte
	Proto  string // Text, Meta or Binary
	Cmd    string // the command word, for binary "b:" and a name
	Op     server.Opcode
	Keys   []string
	Multi  bool // gets
	Value  []byte
	Store  bool
	Flags  uint32
	HasExp bool
	Exp    int64
	HasD   bool
	Delta  uint64
	Cas    uint64
	HasCas bool
	Tokens []string // flags of a meta request
	Opaque uint32   // binary
	Quiet  bool     // getkq
	Opcode byte     // binary
	Delay  int64    // of a flush that is not to happen now
}

func (w WireReq) String() string {
	s := w.Cmd
	if len(w.Keys) > 20 {
		s += fmt.Sprintf(" %q and %d more", w.Keys[:20], len(w.Keys)-20)
	} else if len(w.Keys) > 0 {
		s += fmt.Sprintf(" %q", w.Keys)
	}
	if w.Store {
		s += fmt.Sprintf(" %s f=%08x", Q(w.Value), w.Flags)
	}
	if w.HasExp {
		s += fmt.Sprintf(" e=%d", w.Exp)
	}
	if w.HasD {
		s += fmt.Sprintf(" d=%d", w.Delta)
	}
	if w.HasCas {
		s += fmt.Sprintf(" cas=%d", w.Cas)
	}
	if len(w.Tokens) > 0 {
		s += " " + strings.Join(w.Tokens, " ")
	}
	if w.Proto == Binary {
		s += fmt.Sprintf(" #%x", w.Opaque)
	}
	return s
}

// Token says whether a meta request has the flag.
func (w WireReq) Token(c byte) bool {
	for _, t := range w.Tokens {
		if t[0] == c {
			return true
		}
	}
	return false
}

// TextCmds, MetaCmds and BinCmds are the requests that the server supports.
var (
	TextCmds = []string{"get", "gets", "set", "add", "replace", "cas", "delete", "incr", "decr", "touch", "flush_all", "version"}
	MetaCmds = []string{"mg", "ms", "md"}
	BinCmds  = []string{"b:get", "b:getkq", "b:set", "b:add", "b:replace", "b:delete", "b:incr", "b:decr", "b:touch", "b:flush", "b:noop", "b:version"}
)

var binCode = map[string]byte{"b:get": 0, "b:set": 1, "b:add": 2, "b:replace": 3, "b:delete": 4, "b:incr": 5, "b:decr": 6, "b:flush": 8,
	"b:noop": 0xa, "b:version": 0xb, "b:getkq": 0xd, "b:touch": 0x1c}

var opOf = map[string]server.Opcode{"get": server.OpcodeGet, "gets": server.OpcodeGet, "set": server.OpcodeSet, "cas": server.OpcodeSet,
	"add": server.OpcodeAdd, "replace": server.OpcodeReplace, "delete": server.OpcodeDelete, "incr": server.OpcodeIncrement,
	"decr": server.OpcodeDecrement, "touch": server.OpcodeTouch, "flush_all": server.OpcodeFlush, "version": server.OpcodeVersion,
	"mg": server.OpcodeGet, "ms": server.OpcodeSet, "md": server.OpcodeDelete,
	"b:get": server.OpcodeGet, "b:getkq": server.OpcodeGet, "b:set": server.OpcodeSet, "b:add": server.OpcodeAdd, "b:replace": server.OpcodeReplace,
	"b:delete": server.OpcodeDelete, "b:incr": server.OpcodeIncrement, "b:decr": server.OpcodeDecrement, "b:touch": server.OpcodeTouch,
	"b:flush": server.OpcodeFlush, "b:noop": server.OpcodeNoop, "b:version": server.OpcodeVersion}

// CAS tokens of all magnitudes.
func CasToken() *rapid.Generator[uint64] {
	return rapid.OneOf(rapid.SampledFrom([]uint64{1, 2, 255, 256, 1 << 31, 1<<31 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, math.MaxUint64}), rapid.Uint64Range(1, math.MaxUint64))
}

// lineCas is a token of the ASCII protocols: there zero, which no item has, is
// one as well.
func lineCas() *rapid.Generator[uint64] {
	return rapid.OneOf(rapid.Just(uint64(0)), CasToken(), CasToken(), CasToken(), CasToken())
}

// WithCas is the store request with another token.
func (w WireReq) WithCas(cas uint64) WireReq {
	if w.Proto == Binary {
		extras := append(U32(w.Flags), U32(uint32(w.Exp))...)
		w.Cas = cas
		w.Raw = BinReq(w.Opcode, w.Opaque, cas, extras, w.Keys[0], w.Value)
		return w
	}
	old, now := strconv.FormatUint(w.Cas, 10), strconv.FormatUint(cas, 10)
	if w.Cmd == "ms" {
		old, now = "C"+old, "C"+now
		w.Tokens = append([]string{}, w.Tokens...)
		for i := range w.Tokens {
			if w.Tokens[i] == old {
				w.Tokens[i] = now
			}
		}
	}
	line, rest, _ := bytes.Cut(w.Raw, []byte("\r\n"))
	words := strings.Split(string(line), " ")
	for i := range words {
		if i == 5 && w.Cmd == "cas" || i > 2 && w.Cmd == "ms" && words[i] == old {
			words[i] = now
		}
	}
	w.Raw = append([]byte(strings.Join(words, " ")+"\r\n"), rest...)
	w.Cas = cas
	return w
}

// ReqGen configures the request generator.
type ReqGen struct {
	Cmds   []string
	Prefix string // of every key
	Key    *rapid.Generator[string]
	Value  *rapid.Generator[[]byte]
}

func (g ReqGen) key(t *rapid.T) string {
	if g.Key != nil {
		return g.Key.Draw(t, "key")
	}
	k := g.Prefix + Key().Draw(t, "key")
	if len(k) > 250 {
		k = k[:250]
	}
	return k
}

func drawExp(t *rapid.T) int64 {
	return rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, 60, 2592000, 2592001, math.MaxInt32, math.MaxInt32 - 1, 1700000000}), rapid.Int64Range(0, math.MaxInt32)).Draw(t, "exp")
}

func drawDelta(t *rapid.T, max uint64) uint64 {
	d := rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 10, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64 - 1, math.MaxInt64}), rapid.Uint64()).Draw(t, "delta")
	if d > max {
		d &= max
	}
	return d
}

// Draw makes one well-formed, supported request.
func (g ReqGen) Draw(t *rapid.T) WireReq {
	w := WireReq{Cmd: rapid.SampledFrom(g.Cmds).Draw(t, "cmd")}
	w.Op = opOf[w.Cmd]
	w.Proto = Text
	value := func() []byte {
		if g.Value != nil {
			return g.Value.Draw(t, "value")
		}
		return ServedValue().Draw(t, "value")
	}
	line := func(format string, a ...interface{}) { w.Raw = []byte(fmt.Sprintf(format, a...) + "\r\n") }
	data := func() { w.Raw = append(append(w.Raw, w.Value...), '\r', '\n') }
	switch w.Cmd {
	case "get", "delete":
		w.Keys = []string{g.key(t)}
		line("%s %s", w.Cmd, w.Keys[0])
	case "gets":
		n := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 3, 5, 5, 17, 100, 260, 1100, 4500}).Draw(t, "nkeys")
		for i := 0; i < n && i < 100; i++ {
			w.Keys = append(w.Keys, g.key(t))
		}
		pad := ""
		if n > 100 {
			pad = strings.Repeat("_", rapid.SampledFrom([]int{0, 0, 40, 190, 244}).Draw(t, "pad"))
		}
		for i, total := len(w.Keys), 25000; i < n && total < 1000000; i++ {
			w.Keys = append(w.Keys, w.Keys[i*7%100][:1]+strconv.Itoa(i)+pad)
			total += len(w.Keys[i]) + 1
		}
		w.Multi = true
		line("gets %s", strings.Join(w.Keys, " "))
	case "set", "add", "replace", "cas":
		w.Keys, w.Value, w.Flags, w.Exp, w.HasExp, w.Store = []string{g.key(t)}, value(), Flags32().Draw(t, "flags"), drawExp(t), true, true
		if w.Cmd == "cas" {
			w.Cas, w.HasCas = lineCas().Draw(t, "cas"), true
			line("cas %s %d %d %d %d", w.Keys[0], w.Flags, w.Exp, len(w.Value), w.Cas)
		} else {
			line("%s %s %d %d %d", w.Cmd, w.Keys[0], w.Flags, w.Exp, len(w.Value))
		}
		data()
	case "incr", "decr":
		w.Keys, w.Delta, w.HasD = []string{g.key(t)}, drawDelta(t, math.MaxInt64), true
		line("%s %s %d", w.Cmd, w.Keys[0], w.Delta)
	case "touch":
		w.Keys, w.Exp, w.HasExp = []string{g.key(t)}, drawExp(t), true
		line("touch %s %d", w.Keys[0], w.Exp)
	case "flush_all", "version":
		line("%s", w.Cmd)
	case "mg":
		w.Proto, w.Keys = Meta, []string{g.key(t)}
		w.Tokens = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"c", "f", "h", "k", "l", "O", "s", "t", "v"}), 1, 9, rapid.ID[string]).Draw(t, "flags")
		for i := range w.Tokens {
			if w.Tokens[i] == "O" {
				w.Tokens[i] = "O" + rapid.StringMatching(`[0-9]{1,9}|[a-zA-Z0-9]{1,31}`).Draw(t, "opaque")
			}
		}
		line("mg %s %s", w.Keys[0], strings.Join(w.Tokens, " "))
	case "ms":
		w.Proto, w.Keys, w.Value, w.Store = Meta, []string{g.key(t)}, value(), true
		for _, f := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"C", "F", "I", "k", "O", "S", "T"}), 0, 7, rapid.ID[string]).Draw(t, "flags") {
			switch f {
			case "C":
				w.Cas, w.HasCas = lineCas().Draw(t, "cas"), true
				f += strconv.FormatUint(w.Cas, 10)
			case "F":
				w.Flags = Flags32().Draw(t, "flags")
				f += strconv.FormatUint(uint64(w.Flags), 10)
			case "O":
				f += strconv.Itoa(rapid.IntRange(0, 1<<40).Draw(t, "opaque"))
			case "S":
				f += strconv.Itoa(len(w.Value))
			case "T":
				w.Exp, w.HasExp = drawExp(t), true
				f += strconv.FormatInt(w.Exp, 10)
			}
			w.Tokens = append(w.Tokens, f)
		}
		line("%s", strings.Join(append([]string{"ms", w.Keys[0], strconv.Itoa(len(w.Value))}, w.Tokens...), " "))
		data()
	case "md":
		w.Proto, w.Keys = Meta, []string{g.key(t)}
		line("md %s", w.Keys[0])
	default:
		w.drawBinary(t, g, value)
	}
	return w
}

func (w *WireReq) drawBinary(t *rapid.T, g ReqGen, value func() []byte) {
	w.Proto, w.Opcode = Binary, binCode[w.Cmd]
	w.Opaque = rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 0x80000000, 0xffffffff, 0x0d0a0d0a}), rapid.Uint32()).Draw(t, "opaque")
	if w.Cmd != "b:flush" && w.Cmd != "b:noop" && w.Cmd != "b:version" {
		w.Keys = []string{g.key(t)}
		if g.Key == nil && rapid.IntRange(0, 4).Draw(t, "anybytes") == 4 {
			// the binary protocol carries every byte
			w.Keys[0] = g.Prefix + string(rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "keybytes"))
		}
	}
	exp := func() uint32 {
		w.Exp, w.HasExp = drawExp(t), true
		if w.Exp < 0 || rapid.IntRange(0, 9).Draw(t, "maxexp") == 9 {
			// unsigned, unlike the ASCII protocols'
			w.Exp = int64(rapid.OneOf(rapid.Just(uint32(math.MaxUint32)), rapid.Uint32Range(math.MaxInt32, math.MaxUint32)).Draw(t, "highexp"))
		}
		return uint32(w.Exp)
	}
	cas := func() {
		if rapid.Bool().Draw(t, "hascas") {
			w.Cas, w.HasCas = CasToken().Draw(t, "cas"), true
		}
	}
	var extras []byte
	switch w.Cmd {
	case "b:getkq":
		w.Quiet = true
	case "b:set", "b:add", "b:replace":
		w.Value, w.Store, w.Flags = value(), true, Flags32().Draw(t, "flags")
		extras = append(U32(w.Flags), U32(exp())...)
		cas()
	case "b:delete":
		cas()
	case "b:incr", "b:decr":
		w.Delta, w.HasD = drawDelta(t, math.MaxUint64), true
		extras = make([]byte, 16)
		binary.BigEndian.PutUint64(extras, w.Delta)
		binary.BigEndian.PutUint64(extras[8:], rapid.Uint64().Draw(t, "initial"))
		extras = append(extras, U32(exp())...)
		cas()
	case "b:touch":
		extras = U32(exp())
	case "b:flush":
		if rapid.Bool().Draw(t, "extras") {
			extras = U32(0)
		}
	}
	w.Raw = BinReq(w.Opcode, w.Opaque, w.Cas, extras, w.key(), w.Value)
}

func (w *WireReq) key() string {
	if len(w.Keys) == 0 {
		return ""
	}
	return w.Keys[0]
}

// BinReq encodes a binary request.
func BinReq(opcode byte, opaque uint32, cas uint64, extras []byte, key string, value []byte) []byte {
	b := BinReply(opcode, 0, opaque, cas, extras, key, value)
	b[0] = 0x80
	return b
}

// CloneReq copies a request as a handler sees it.
func CloneReq(r *server.Request) *server.Request {
	c := &server.Request{Opcode: r.Opcode, Key: strings.Clone(r.Key), Flags: Clone(r.Flags), Value: Clone(r.Value), Delta: r.Delta}
	if r.Keys != nil {
		c.Keys = make([]string, len(r.Keys))
		for i := range r.Keys {
			c.Keys[i] = strings.Clone(r.Keys[i])
		}
	}
	if r.GetOpt != nil {
		o := *r.GetOpt
		o.RequestFlag = strings.Clone(o.RequestFlag)
		c.GetOpt = &o
	}
	if r.SetOpt != nil {
		o := *r.SetOpt
		c.SetOpt = &o
	}
	if r.DelOpt != nil {
		o := *r.DelOpt
		c.DelOpt = &o
	}
	return c
}

// ReqString prints a handler request.
func ReqString(r *server.Request) string {
	if r == nil {
		return "nothing"
	}
	s := fmt.Sprintf("{op %d key %q", r.Opcode, r.Key)
	if r.Keys != nil {
		s += fmt.Sprintf(" keys %q", r.Keys)
	}
	s += fmt.Sprintf(" value %s flags %x delta %d", Q(r.Value), r.Flags, r.Delta)
	if r.GetOpt != nil {
		s += fmt.Sprintf(" get%+v", *r.GetOpt)
	}
	if r.SetOpt != nil {
		s += fmt.Sprintf(" set%+v", *r.SetOpt)
	}
	if r.DelOpt != nil {
		s += fmt.Sprintf(" del%+v", *r.DelOpt)
	}
	return s + "}"
}

// Matches compares what the handler got with what was sent.
func (w WireReq) Matches(r *server.Request) string {
	bad := func(what string, got, want interface{}) string {
		return fmt.Sprintf("%s is %v, want %v; sent %s, handler got %s", what, got, want, w, ReqString(r))
	}
	if r.Opcode != w.Op {
		return bad("operation", r.Opcode, w.Op)
	}
	keys := r.Keys
	if keys == nil && r.Key != "" {
		keys = []string{r.Key}
	}
	if len(keys) != len(w.Keys) {
		return bad("number of keys", len(keys), len(w.Keys))
	}
	for i := range keys {
		if keys[i] != w.Keys[i] {
			return bad("key", fmt.Sprintf("%q", keys[i]), fmt.Sprintf("%q", w.Keys[i]))
		}
	}
	if w.Multi != (r.Keys != nil) {
		return bad("several keys", r.Keys != nil, w.Multi)
	}
	if !bytes.Equal(r.Value, w.Value) {
		return bad("value", Q(r.Value), Q(w.Value))
	}
	get, set, del := server.GetOpt{}, server.SetOpt{}, server.DelOpt{}
	if r.GetOpt != nil {
		get = *r.GetOpt
	}
	if r.SetOpt != nil {
		set = *r.SetOpt
	}
	if r.DelOpt != nil {
		del = *r.DelOpt
	}
	if w.Store {
		if r.SetOpt == nil {
			return bad("SetOpt", nil, "not nil")
		}
		got := uint32(set.Flag)
		if w.Cmd != "ms" {
			if len(r.Flags) != 4 {
				return bad("flags", r.Flags, w.Flags)
			}
			got = binary.BigEndian.Uint32(r.Flags)
		}
		if got != w.Flags {
			return bad("flags", got, w.Flags)
		}
	}
	exp := int64(set.Expiration)
	if w.Cmd == "touch" && exp == 0 {
		exp = r.Delta
	}
	want := w.Exp
	if w.HasExp || w.Store || w.HasD {
		// incr and decr take the highest one as a word of its own
		never := w.HasD && want == math.MaxUint32 && exp == -1
		if exp != want && !never {
			return bad("expiration", exp, want)
		}
	}
	if w.HasD && uint64(r.Delta) != w.Delta {
		return bad("delta", uint64(r.Delta), w.Delta)
	}
	if set.Cas != w.HasCas || set.CasValue != w.Cas {
		return bad("CAS", fmt.Sprint(set.Cas, set.CasValue), fmt.Sprint(w.HasCas, w.Cas))
	}
	if set.Meta != (w.Cmd == "ms") || get.Meta != (w.Cmd == "mg") || del.Meta != (w.Cmd == "md") {
		return bad("meta", fmt.Sprint(get.Meta, set.Meta, del.Meta), w.Cmd)
	}
	if get.NoReply != w.Quiet || set.NoReply {
		return bad("quiet", fmt.Sprint(get.NoReply, set.NoReply), w.Quiet)
	}
	if w.Quiet && !get.Key {
		return bad("key in reply", get.Key, true)
	}
	if w.Cmd == "mg" {
		for _, f := range []struct {
			c   byte
			got bool
		}{{'c', get.Cas}, {'f', get.Flag}, {'h', get.Hit}, {'k', get.Key}, {'l', get.LastAccess}, {'O', get.WithOpaque}, {'s', get.Size}, {'t', get.TTL}, {'v', get.Value}} {
			if f.got != w.Token(f.c) {
				return bad("flag "+string(f.c), f.got, w.Token(f.c))
			}
		}
		if get.RequestFlag != strings.Join(w.Tokens, " ") {
			return bad("RequestFlag", get.RequestFlag, w.Tokens)
		}
	}
	if w.Cmd == "ms" {
		if set.Invalidate != w.Token('I') {
			return bad("flag I", set.Invalidate, w.Token('I'))
		}
		if set.Key != w.Token('k') {
			return bad("flag k", set.Key, w.Token('k'))
		}
		if set.Size != len(w.Value) {
			return bad("size", set.Size, len(w.Value))
		}
		for _, tok := range w.Tokens {
			if tok[0] == 'O' && strconv.FormatInt(set.Opaque, 10) != tok[1:] {
				return bad("opaque", set.Opaque, tok)
			}
		}
	}
	return ""
}
