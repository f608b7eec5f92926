package hx

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
	merrors "go.f110.dev/go-memcached/errors"
)

const (
	Text   = "text"
	Meta   = "meta"
	Binary = "binary"
)

var Protocols = []string{Text, Meta, Binary}

// Dial makes a protocol client. The context is for connecting: that it ends
// with this call, as it does in programs that use one, is of no consequence
// for the client.
func Dial(proto, name, network, addr string, opts ...client.ServerOpt) (client.Server, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	switch proto {
	case Text:
		s, err := client.NewServerWithTextProtocol(ctx, name, network, addr, opts...)
		if err != nil {
			return nil, err
		}
		return s, nil
	case Meta:
		s, err := client.NewServerWithMetaProtocol(ctx, name, network, addr, opts...)
		if err != nil {
			return nil, err
		}
		return s, nil
	case Binary:
		s, err := client.NewServerWithBinaryProtocol(ctx, name, network, addr, opts...)
		if err != nil {
			return nil, err
		}
		return s, nil
	}
	panic("protocol " + proto)
}

// MustDial ends the check when a client cannot be made.
func MustDial(proto, name, network, addr string, opts ...client.ServerOpt) client.Server {
	var s client.Server
	var err error
	for i := 0; i < 3; i++ {
		if s, err = Dial(proto, name, network, addr, opts...); err == nil {
			return s
		}
		time.Sleep(100 * time.Millisecond)
	}
	if err != nil {
		if conn, e := net.DialTimeout(network, addr, 5*time.Second); e == nil {
			conn.Close()
			Violated("a %s client cannot be made although the server accepts connections: %v", proto, err)
		}
		Infra("dial %s %s: %v", proto, addr, err)
	}
	return s
}

// SetTimeout sets the exported timeout of a client.
func SetTimeout(s client.Server, d time.Duration) {
	switch c := s.(type) {
	case *client.ServerWithTextProtocol:
		c.Timeout = d
	case *client.ServerWithMetaProtocol:
		c.Timeout = d
	case *client.ServerWithBinaryProtocol:
		c.Timeout = d
	default:
		panic("unknown client")
	}
}

// Outcome kinds of a call.
const (
	OK       = "ok"
	NotFound = "ItemNotFound"
	Exists   = "ItemExists"
	Other    = "error"
)

// Kind classifies an error the way callers of the library do.
func Kind(err error) string {
	switch {
	case err == nil:
		return OK
	case errors.Is(err, merrors.ItemNotFound):
		return NotFound
	case errors.Is(err, merrors.ItemExists):
		return Exists
	}
	return Other
}

// Op is one call; it is plain data so that it can be generated and printed.
type Op struct {
	Kind  string // get getmulti set add replace delete touch incr decr flush version
	Key   string
	Keys  []string
	Value []byte
	Flags []byte
	Exp   int
	Cas   uint64
	Delta int
}

func (o Op) String() string {
	switch o.Kind {
	case "get", "delete":
		return fmt.Sprintf("%s(%q)", o.Kind, o.Key)
	case "getmulti":
		if len(o.Keys) > 20 {
			return fmt.Sprintf("getmulti(%d keys)", len(o.Keys))
		}
		return fmt.Sprintf("getmulti(%q)", o.Keys)
	case "set", "add", "replace":
		c := ""
		if o.Cas != 0 {
			c = fmt.Sprintf(" cas=%d", o.Cas)
		}
		return fmt.Sprintf("%s(%q=%s f=%x e=%d%s)", o.Kind, o.Key, Q(o.Value), o.Flags, o.Exp, c)
	case "touch":
		return fmt.Sprintf("touch(%q,%d)", o.Key, o.Exp)
	case "incr", "decr":
		return fmt.Sprintf("%s(%q,%d,e=%d)", o.Kind, o.Key, o.Delta, o.Exp)
	}
	return o.Kind + "()"
}

// Result is what a call returned.
type Result struct {
	Err     error
	Kind    string
	Item    *client.Item
	Items   []*client.Item
	N       int64
	Version string
}

func (r Result) String() string {
	var b strings.Builder
	b.WriteString(r.Kind)
	if r.Kind == Other {
		fmt.Fprintf(&b, "(%v)", r.Err)
	}
	if r.Item != nil {
		fmt.Fprintf(&b, " %s", ItemString(r.Item))
	}
	if r.Items != nil {
		b.WriteString(" [")
		for _, i := range r.Items {
			b.WriteString(ItemString(i) + " ")
		}
		b.WriteString("]")
	}
	fmt.Fprintf(&b, " n=%d %s", r.N, r.Version)
	return b.String()
}

// ItemString prints an item.
func ItemString(i *client.Item) string {
	if i == nil {
		return "nil"
	}
	return fmt.Sprintf("{%q %s f=%x e=%d cas=%d}", i.Key, Q(i.Value), i.Flags, i.Expiration, i.Cas)
}

// API is the part shared by clients and pools.
type API interface {
	Get(key string) (*client.Item, error)
	GetMulti(keys ...string) ([]*client.Item, error)
	Set(item *client.Item) error
	Add(item *client.Item) error
	Replace(item *client.Item) error
	Delete(key string) error
	Increment(key string, delta, expiration int) (int64, error)
	Decrement(key string, delta, expiration int) (int64, error)
}

// Clone copies bytes, keeping nil.
func Clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)), b...)
}

// Item makes the client item of a storing op.
func (o Op) Item() *client.Item {
	return &client.Item{Key: o.Key, Value: Clone(o.Value), Flags: Clone(o.Flags), Expiration: o.Exp, Cas: o.Cas}
}

// Do performs the op without watchdog.
func Do(s API, o Op) (r Result) {
	switch o.Kind {
	case "get":
		r.Item, r.Err = s.Get(o.Key)
	case "getmulti":
		r.Items, r.Err = s.GetMulti(o.Keys...)
	case "set":
		r.Err = s.Set(o.Item())
	case "add":
		r.Err = s.Add(o.Item())
	case "replace":
		r.Err = s.Replace(o.Item())
	case "delete":
		r.Err = s.Delete(o.Key)
	case "touch":
		r.Err = s.(interface{ Touch(string, int) error }).Touch(o.Key, o.Exp)
	case "incr":
		r.N, r.Err = s.Increment(o.Key, o.Delta, o.Exp)
	case "decr":
		r.N, r.Err = s.Decrement(o.Key, o.Delta, o.Exp)
	case "flush":
		r.Err = s.(interface{ Flush() error }).Flush()
	case "version":
		switch v := s.(type) {
		case interface{ Version() (string, error) }:
			r.Version, r.Err = v.Version()
		case interface {
			Version() (map[string]string, error)
		}:
			var m map[string]string
			m, r.Err = v.Version()
			var parts []string
			for k, x := range m {
				parts = append(parts, k+"="+x)
			}
			sort.Strings(parts)
			r.Version = strings.Join(parts, ",")
		}
	default:
		panic("op " + o.Kind)
	}
	r.Kind = Kind(r.Err)
	return r
}

// Run performs the op under the watchdog; a panic or hang fails t.
func Run(t TB, s API, o Op) (r Result) {
	t.Helper()
	Call(t, o.String(), func() { r = Do(s, o) })
	return r
}

// From checks that the items of a result name no server but their own, which
// of tells with its protocol. The text client's do name it.
func (r Result) From(of func(key string) (name, proto string)) string {
	items := r.Items
	if r.Item != nil {
		items = append(items[:len(items):len(items)], r.Item)
	}
	for _, it := range items {
		if it == nil {
			continue
		}
		if name, proto := of(it.Key); it.Server != name && (it.Server != "" || proto == Text) {
			return fmt.Sprintf("item %s says that it is from server %q, but it is from %q (%s)", ItemString(it), it.Server, name, proto)
		}
	}
	return ""
}
