package hx

import (
	"crypto/sha1"
	"encoding/binary"
	"hash/crc32"
	"strconv"
)

// RefRing is the placement as it is specified, computed the slow way.
type RefRing struct {
	names  []string
	points []refPoint
}

type refPoint struct {
	hash uint32
	name string
}

// Hashes lists the 200 points of a server's name.
func Hashes(name string) []uint32 {
	out := make([]uint32, 200)
	for i := range out {
		s := sha1.Sum([]byte(name + "/" + strconv.Itoa(i)))
		out[i] = binary.BigEndian.Uint32(s[:4])
	}
	return out
}

// NewRefRing computes the points of the names.
func NewRefRing(names ...string) *RefRing {
	r := &RefRing{names: names}
	for _, n := range names {
		for _, h := range Hashes(n) {
			r.points = append(r.points, refPoint{h, n})
		}
	}
	return r
}

// Owners returns the names that own the point a hash falls on; it is more
// than one name only where points of several servers coincide.
func (r *RefRing) Owners(h uint32) []string {
	best, found := uint32(0), false
	low := ^uint32(0)
	for _, p := range r.points {
		if p.hash <= h && (!found || p.hash > best) {
			best, found = p.hash, true
		}
		if p.hash < low {
			low = p.hash
		}
	}
	if !found {
		best = low
	}
	var out []string
	seen := map[string]bool{}
	for _, p := range r.points {
		if p.hash == best && !seen[p.name] {
			seen[p.name] = true
			out = append(out, p.name)
		}
	}
	return out
}

// KeyHash is the hash of a key.
func KeyHash(key string) uint32 { return crc32.ChecksumIEEE([]byte(key)) }

// Owner is the single owner of a key (the first name where points coincide).
func (r *RefRing) Owner(key string) string { return r.Owners(KeyHash(key))[0] }
