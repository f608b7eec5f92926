package checks

import (
	"fmt"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"
	"verif/harness/hx"
)

// node is one backend of a pool: a memcached behind a relay.
type node struct {
	name  string
	mc    *hx.Memcached
	relay *hx.Relay
	c     client.Server
	proto string
}

func (n *node) insp() *hx.Inspector { return n.mc.Inspect() }

var poolRelays []*hx.Relay

func poolRelay(i int) *hx.Relay {
	for len(poolRelays) <= i {
		m := mc(len(poolRelays))
		poolRelays = append(poolRelays, hx.NewRelay(m.Network, m.Addr))
	}
	r := poolRelays[i]
	r.Down()
	r.Listen()
	r.Arm(hx.Fault{})
	r.Segments(nil)
	return r
}

// makeNode makes the i-th backend, empty, with a client of the protocol.
func makeNode(i int, name, proto string) *node {
	n := &node{name: name, relay: poolRelay(i), mc: mc(i)}
	n.insp().FlushAll()
	n.c = n.relay.Dial(proto, name)
	return n
}

// single is a single pool with its reference placement.
type single struct {
	nodes []*node
	pool  *client.SinglePool
	ring  *hx.RefRing
}

func newSingle(names, protos []string) *single {
	s := &single{ring: hx.NewRefRing(names...)}
	var cs []client.Server
	for i := range names {
		n := makeNode(i, names[i], protos[i%len(protos)])
		s.nodes = append(s.nodes, n)
		cs = append(cs, n.c)
	}
	p, err := client.NewSinglePool(cs...)
	if err != nil {
		hx.Violated("the pool cannot be made: %v", err)
	}
	s.pool = p
	return s
}

func (s *single) close() {
	for _, n := range s.nodes {
		closeQuiet(n.c)
		n.relay.CutAll()
	}
}

func find(nodes []*node, name string) *node {
	for _, n := range nodes {
		if n.name == name {
			return n
		}
	}
	panic("node " + name)
}

func (s *single) owner(key string) *node { return find(s.nodes, s.ring.Owner(key)) }

// replica is a replica pool with its reference placements.
type replica struct {
	prim, sec    []*node
	pring, sring *hx.RefRing
	pool         *cluster.ReplicaPool
}

func newReplica(np, ns int) *replica {
	var pn, sn []string
	for i := 0; i < np; i++ {
		pn = append(pn, fmt.Sprintf("primary-%d", i))
	}
	for i := 0; i < ns; i++ {
		sn = append(sn, fmt.Sprintf("secondary-%d", i))
	}
	return newReplicaNames(pn, sn)
}

func newReplicaNames(pn, sn []string) *replica {
	r := &replica{pring: hx.NewRefRing(pn...), sring: hx.NewRefRing(sn...)}
	var pc, sc []*client.ServerWithMetaProtocol
	for i, n := range pn {
		x := makeNode(i, n, hx.Meta)
		r.prim = append(r.prim, x)
		pc = append(pc, x.c.(*client.ServerWithMetaProtocol))
	}
	for i, n := range sn {
		x := makeNode(len(pn)+i, n, hx.Meta)
		r.sec = append(r.sec, x)
		sc = append(sc, x.c.(*client.ServerWithMetaProtocol))
	}
	r.pool = cluster.NewReplicaPool(pc, sc)
	return r
}

func (r *replica) close() {
	for _, n := range append(append([]*node{}, r.prim...), r.sec...) {
		closeQuiet(n.c)
		n.relay.CutAll()
	}
}

func (r *replica) primary(key string) *node   { return find(r.prim, r.pring.Owner(key)) }
func (r *replica) secondary(key string) *node { return find(r.sec, r.sring.Owner(key)) }
