package hx

import (
	"encoding/binary"
	"errors"
	"math/big"
	"strconv"
	"strings"
	"sync"
	"time"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"
)

// MapHandler is a server.Handler that is a small memcached.
type MapHandler struct {
	mu  sync.Mutex
	m   map[string]State
	cas uint64
}

func NewMapHandler() *MapHandler { return &MapHandler{m: map[string]State{}, cas: 1 << 62} }

// State is what is held under a key.
func (h *MapHandler) State(key string) State {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.m[key]
}

var (
	errNotNumeric = &merrors.MemcachedError{Status: 6, Message: "Non-numeric server-side value for incr or decr"}
	errTooLarge   = &merrors.MemcachedError{Status: 3, Message: "Too large"}
)

func respond(s State, key string) *server.Response {
	return &server.Response{Key: key, Value: s.Value, Flags: U32(s.Flags), Cas: int64(s.Cas), TTL: s.TTL}
}

func (h *MapHandler) put(key string, s State, exp int) uint64 {
	ttl, gone := ttlOf(int(int32(exp)), time.Now())
	h.cas += 3
	if gone {
		delete(h.m, key)
		return h.cas
	}
	s.Exists, s.TTL, s.Cas = true, ttl, h.cas
	h.m[key] = s
	return h.cas
}

func (h *MapHandler) ServeRequest(r *server.Request) ([]*server.Response, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	fail := func(err error) ([]*server.Response, error) { return []*server.Response{{Error: err}}, nil }
	opt := server.SetOpt{}
	if r.SetOpt != nil {
		opt = *r.SetOpt
	}
	old := h.m[r.Key]
	switch r.Opcode {
	case server.OpcodeGet:
		if r.Keys != nil {
			var res []*server.Response
			for _, k := range r.Keys {
				if s := h.m[k]; s.Exists {
					res = append(res, respond(s, k))
				}
			}
			return res, nil
		}
		if !old.Exists {
			return fail(merrors.ItemNotFound)
		}
		return []*server.Response{respond(old, r.Key)}, nil
	case server.OpcodeSet, server.OpcodeAdd, server.OpcodeReplace:
		if len(r.Value) >= OverLimit {
			delete(h.m, r.Key)
			return fail(errTooLarge)
		}
		if r.Opcode == server.OpcodeAdd && old.Exists {
			return fail(merrors.ItemExists)
		}
		if (r.Opcode == server.OpcodeReplace || opt.Cas) && !old.Exists {
			return fail(merrors.ItemNotFound)
		}
		if opt.Cas && opt.CasValue != old.Cas {
			return fail(merrors.ItemExists)
		}
		f := FlagWord(r.Flags)
		if opt.Meta {
			f = uint32(opt.Flag)
		}
		cas := h.put(r.Key, State{Value: Clone(r.Value), Flags: f}, opt.Expiration)
		return []*server.Response{{Cas: int64(cas)}}, nil
	case server.OpcodeDelete:
		if !old.Exists {
			return fail(merrors.ItemNotFound)
		}
		delete(h.m, r.Key)
		return []*server.Response{{}}, nil
	case server.OpcodeIncrement, server.OpcodeDecrement:
		bin := r.SetOpt != nil
		enc := func(n uint64) []*server.Response {
			if bin {
				b := make([]byte, 8)
				binary.BigEndian.PutUint64(b, n)
				return []*server.Response{{Value: b, Cas: int64(h.cas)}}
			}
			return []*server.Response{{Value: []byte(strconv.FormatUint(n, 10))}}
		}
		if !old.Exists {
			if !bin || uint32(opt.Expiration) == 0xffffffff {
				return fail(merrors.ItemNotFound)
			}
			h.put(r.Key, State{Value: []byte("1")}, opt.Expiration)
			return enc(1), nil
		}
		n, ok := new(big.Int).SetString(strings.TrimRight(string(old.Value), " "), 10)
		if !ok || !n.IsUint64() {
			return fail(errNotNumeric)
		}
		v, d := n.Uint64(), uint64(r.Delta)
		if r.Opcode == server.OpcodeIncrement {
			v += d
		} else if v < d {
			v = 0
		} else {
			v -= d
		}
		h.cas += 3
		old.Value, old.Cas = []byte(strconv.FormatUint(v, 10)), h.cas
		h.m[r.Key] = old
		return enc(v), nil
	case server.OpcodeTouch:
		if !old.Exists {
			return fail(merrors.ItemNotFound)
		}
		ttl, gone := ttlOf(int(int32(opt.Expiration)), time.Now())
		if gone {
			delete(h.m, r.Key)
		} else {
			old.TTL = ttl
			h.m[r.Key] = old
		}
		return []*server.Response{{}}, nil
	case server.OpcodeFlush:
		h.m = map[string]State{}
		return []*server.Response{{}}, nil
	case server.OpcodeVersion:
		return []*server.Response{{Value: []byte("VERSION 7.8.9")}}, nil
	case server.OpcodeNoop:
		return []*server.Response{{}}, nil
	}
	return nil, errors.New("unknown opcode")
}
