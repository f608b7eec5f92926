package hx

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
)

const (
	thirtyDays = 60 * 60 * 24 * 30
	// ItemLimit is below memcached's default item size limit; OverLimit is
	// certainly above it.
	OverLimit = 1<<20 + 1
)

// Entry is what the reference model holds under a key.
type Entry struct {
	Value []byte
	Flags uint32
	TTL   int64     // remaining seconds at At, -1 for none
	At    time.Time // when TTL was determined
	Cas   uint64    // 0 while unknown
	Was   uint64    // the token before the last change, 0 if unknown
}

// Model is the reference memcached: a map.
type Model struct {
	M map[string]*Entry
	// Unsure holds keys whose state is not determined by the history (after
	// an operation whose outcome the contract leaves open).
	Unsure map[string]bool
	// Large: the memcached takes values above the usual limit.
	Large bool
}

func NewModel() *Model { return &Model{M: map[string]*Entry{}, Unsure: map[string]bool{}} }

func ttlOf(exp int, now time.Time) (ttl int64, expired bool) {
	switch {
	case exp < 0:
		return 0, true
	case exp == 0:
		return -1, false
	case exp <= thirtyDays:
		return int64(exp), false
	}
	ttl = int64(exp) - now.Unix()
	return ttl, ttl <= 0
}

func (m *Model) put(o Op) {
	now := time.Now()
	ttl, gone := ttlOf(o.Exp, now)
	if gone {
		delete(m.M, o.Key)
		return
	}
	was := uint64(0)
	if e := m.M[o.Key]; e != nil && !m.Unsure[o.Key] {
		was = e.Cas
	}
	m.M[o.Key] = &Entry{Value: Clone(o.Value), Flags: FlagWord(o.Flags), TTL: ttl, At: now, Was: was}
	if m.M[o.Key].Value == nil {
		m.M[o.Key].Value = []byte{}
	}
}

// Expected outcome of a call.
type Expect struct {
	Kinds  []string // allowed outcome kinds; empty means any
	N      int64
	CheckN bool
}

func (e Expect) allows(k string) bool {
	if len(e.Kinds) == 0 {
		return true
	}
	for _, x := range e.Kinds {
		if x == k {
			return true
		}
	}
	return false
}

// Numeric says whether memcached treats v as a number (1), as not a number
// (-1), or whether the contract leaves it open (0).
func Numeric(v []byte) (*big.Int, int) {
	s := strings.TrimRight(string(v), " ")
	if len(v) == 0 {
		return nil, -1
	}
	digits := len(s) > 0 && len(s) <= 20
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			digits = false
		}
	}
	if digits {
		n, _ := new(big.Int).SetString(s, 10)
		if n.IsUint64() {
			return n, 1
		}
		return nil, 0
	}
	c := v[0]
	if c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= 0x80 || c == '%' {
		return nil, -1
	}
	return nil, 0
}

// Step computes what the op must return and applies it. cas tells whether
// the token carried by a set is the key's current one.
func (m *Model) Step(proto string, o Op) Expect {
	e, ok := m.M[o.Key]
	if m.Unsure[o.Key] && o.Kind != "set" && o.Kind != "flush" && o.Kind != "getmulti" && o.Kind != "version" {
		return Expect{}
	}
	switch o.Kind {
	case "get":
		if !ok {
			return Expect{Kinds: []string{NotFound}}
		}
		return Expect{Kinds: []string{OK}}
	case "getmulti", "version":
		return Expect{Kinds: []string{OK}}
	case "set":
		if len(o.Value) >= OverLimit && !m.Large {
			m.Unsure[o.Key] = true
			return Expect{Kinds: []string{Other}}
		}
		if o.Cas != 0 {
			if m.Unsure[o.Key] {
				return Expect{}
			}
			if !ok {
				return Expect{Kinds: []string{NotFound, Other}}
			}
			if e.Cas != o.Cas {
				return Expect{Kinds: []string{Exists}}
			}
		}
		m.put(o)
		delete(m.Unsure, o.Key)
		return Expect{Kinds: []string{OK}}
	case "add", "replace":
		if len(o.Value) >= OverLimit && !m.Large {
			// whether presence or size is judged first is memcached's choice,
			// and a refused store may drop the old item
			m.Unsure[o.Key] = true
			return Expect{Kinds: []string{Other}}
		}
		if o.Kind == "add" && ok {
			return Expect{Kinds: []string{Exists}}
		}
		if o.Kind == "replace" && !ok {
			return Expect{Kinds: []string{NotFound}}
		}
		if o.Kind == "replace" && o.Cas != 0 && proto == Binary && e.Cas != o.Cas {
			// The binary protocol lets a replace carry a token.
			return Expect{Kinds: []string{Exists, Other}}
		}
		m.put(o)
		return Expect{Kinds: []string{OK}}
	case "delete":
		if !ok {
			if proto == Meta {
				return Expect{Kinds: []string{OK}}
			}
			return Expect{Kinds: []string{NotFound}}
		}
		delete(m.M, o.Key)
		return Expect{Kinds: []string{OK}}
	case "touch":
		if !ok {
			return Expect{Kinds: []string{NotFound, Other}}
		}
		ttl, gone := ttlOf(o.Exp, time.Now())
		if gone {
			delete(m.M, o.Key)
		} else {
			e.TTL, e.At = ttl, time.Now()
		}
		return Expect{Kinds: []string{OK}}
	case "incr", "decr":
		if !ok {
			if proto == Binary {
				if o.Exp < 0 {
					// Created with its lifetime over, or not at all.
					return Expect{}
				}
				ttl, gone := ttlOf(o.Exp, time.Now())
				if !gone {
					m.M[o.Key] = &Entry{Value: []byte("1"), TTL: ttl, At: time.Now()}
				}
				return Expect{Kinds: []string{OK}, N: 1, CheckN: true}
			}
			return Expect{Kinds: []string{NotFound}}
		}
		n, c := Numeric(e.Value)
		if c < 0 {
			return Expect{Kinds: []string{Other}}
		}
		if c == 0 {
			m.Unsure[o.Key] = true
			return Expect{}
		}
		d := big.NewInt(int64(o.Delta))
		if o.Kind == "incr" {
			n = new(big.Int).Add(n, d)
		} else {
			n = new(big.Int).Sub(n, d)
			if n.Sign() < 0 {
				n = big.NewInt(0)
			}
		}
		if !n.IsInt64() {
			m.Unsure[o.Key] = true
			return Expect{}
		}
		v := n.String()
		for len(v) < len(e.Value) {
			v += " "
		}
		e.Value, e.Was, e.Cas = []byte(v), e.Cas, 0
		return Expect{Kinds: []string{OK}, N: n.Int64(), CheckN: true}
	case "flush":
		m.M = map[string]*Entry{}
		m.Unsure = map[string]bool{}
		return Expect{Kinds: []string{OK}}
	}
	panic("op " + o.Kind)
}

// CheckItem compares a returned item with the model entry.
func (m *Model) CheckItem(proto string, key string, it *client.Item, viaGetMulti bool) string {
	e := m.M[key]
	if it == nil {
		return "no item returned"
	}
	if it.Key != key {
		return fmt.Sprintf("item has key %q, want %q", it.Key, key)
	}
	if e == nil {
		return fmt.Sprintf("item %s for absent key", ItemString(it))
	}
	if !bytes.Equal(it.Value, e.Value) {
		return fmt.Sprintf("key %q: value %s, want %s", key, Q(it.Value), Q(e.Value))
	}
	if len(it.Flags) != 4 || FlagWord(it.Flags) != e.Flags {
		return fmt.Sprintf("key %q: flags % x, want %08x", key, it.Flags, e.Flags)
	}
	if it.Cas == 0 || (e.Cas != 0 && it.Cas != e.Cas) {
		return fmt.Sprintf("key %q: cas %d, want %d", key, it.Cas, e.Cas)
	}
	if proto == Meta {
		if msg := TTLMatches(int64(it.Expiration), e); msg != "" {
			return fmt.Sprintf("key %q: %s", key, msg)
		}
	}
	return ""
}

// TTLMatches compares a remaining lifetime with the model.
func TTLMatches(got int64, e *Entry) string {
	if e.TTL < 0 {
		if got != -1 {
			return fmt.Sprintf("remaining lifetime %d, want none", got)
		}
		return ""
	}
	el := int64(time.Since(e.At)/time.Second) + 1
	if got > e.TTL+TTLSlack() || got < e.TTL-el-TTLSlack() {
		return fmt.Sprintf("remaining lifetime %d, want about %d", got, e.TTL)
	}
	return ""
}

// CheckState compares the server's true state of a key with the model and
// adopts the server's CAS value.
func (m *Model) CheckState(key string, s State) string {
	e := m.M[key]
	if m.Unsure[key] {
		delete(m.Unsure, key)
		if !s.Exists {
			delete(m.M, key)
		} else {
			m.M[key] = &Entry{Value: s.Value, Flags: s.Flags, TTL: s.TTL, At: time.Now(), Cas: s.Cas}
		}
		return ""
	}
	if e == nil {
		if s.Exists {
			return fmt.Sprintf("server holds %v under %q, want nothing", s, key)
		}
		return ""
	}
	if !s.Exists {
		return fmt.Sprintf("server holds nothing under %q, want %s", key, Q(e.Value))
	}
	if !bytes.Equal(s.Value, e.Value) && !bytes.Equal(bytes.TrimRight(s.Value, " "), bytes.TrimRight(e.Value, " ")) {
		return fmt.Sprintf("server holds %v under %q, want value %s", s, key, Q(e.Value))
	}
	e.Value = s.Value
	if s.Flags != e.Flags {
		return fmt.Sprintf("server holds %v under %q, want flags %d", s, key, e.Flags)
	}
	if msg := TTLMatches(s.TTL, e); msg != "" {
		return fmt.Sprintf("key %q on the server: %s", key, msg)
	}
	if s.Stale {
		return fmt.Sprintf("key %q was marked stale", key)
	}
	if e.Cas != 0 && s.Cas != e.Cas {
		return fmt.Sprintf("key %q: cas changed from %d to %d without a modification", key, e.Cas, s.Cas)
	}
	if e.Cas == 0 && e.Was != 0 && s.Cas == e.Was {
		return fmt.Sprintf("key %q still has the token %d of before it was modified", key, s.Cas)
	}
	e.Cas = s.Cas
	return ""
}

// CheckResult compares an outcome with the expectation (and, for reads, with
// the model).
func (m *Model) CheckResult(proto string, o Op, exp Expect, r Result) string {
	if !exp.allows(r.Kind) {
		return fmt.Sprintf("%s via %s returned %v, want %v", o, proto, r, exp.Kinds)
	}
	if exp.CheckN && r.Err == nil && r.N != exp.N {
		return fmt.Sprintf("%s via %s returned %d, want %d", o, proto, r.N, exp.N)
	}
	switch o.Kind {
	case "get":
		if r.Err == nil && !m.Unsure[o.Key] {
			if msg := m.CheckItem(proto, o.Key, r.Item, false); msg != "" {
				return fmt.Sprintf("%s via %s: %s", o, proto, msg)
			}
		}
	case "getmulti":
		if r.Err == nil {
			if msg := m.CheckMulti(proto, o.Keys, r.Items); msg != "" {
				return fmt.Sprintf("%s via %s: %s", o, proto, msg)
			}
		}
	}
	return ""
}

// CheckMulti: exactly the existing requested keys, each correct. A key listed
// several times may be answered once or once per mention.
func (m *Model) CheckMulti(proto string, keys []string, items []*client.Item) string {
	want := map[string]int{}
	for _, k := range keys {
		want[k]++
	}
	got := map[string]int{}
	for _, it := range items {
		if it == nil {
			return "nil item"
		}
		if want[it.Key] == 0 {
			return fmt.Sprintf("item %s was not requested", ItemString(it))
		}
		got[it.Key]++
		if m.Unsure[it.Key] {
			continue
		}
		if msg := m.CheckItem(proto, it.Key, it, true); msg != "" {
			return msg
		}
	}
	for k, n := range want {
		if m.Unsure[k] {
			continue
		}
		if m.M[k] == nil {
			if got[k] != 0 {
				return fmt.Sprintf("item returned for absent key %q", k)
			}
			continue
		}
		if got[k] < 1 || got[k] > n {
			return fmt.Sprintf("key %q exists and was requested %d times but returned %d times", k, n, got[k])
		}
	}
	return ""
}
