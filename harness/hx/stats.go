package hx

import (
	"encoding/json"
	"hash/fnv"
	"os"
	"strconv"
	"sync"
)

type statsT struct {
	mu          sync.Mutex
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Extra       map[string]int `json:"extra"`
	Hashes      []string       `json:"hashes"`
	Known       []string       `json:"known"`
	seen        map[uint64]struct{}
}

var stats = statsT{Labels: map[string]int{}, Extra: map[string]int{}, seen: map[uint64]struct{}{}}

// Case counts one generated case. desc identifies it; nontrivial says whether
// it meets the property's stated rule.
func Case(desc string, nontrivial bool, labels ...string) {
	stats.mu.Lock()
	stats.Evaluations++
	fresh := false
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(desc))
		k := h.Sum64()
		if _, ok := stats.seen[k]; !ok {
			stats.seen[k] = struct{}{}
			stats.Nontrivial++
			stats.Hashes = append(stats.Hashes, strconv.FormatUint(k, 36))
			fresh = true
		}
	}
	for _, l := range labels {
		stats.Labels[l]++
	}
	n := stats.Nontrivial
	if fresh && (n <= 3 || n&(n-1) == 0) && len(stats.Samples) < 16 {
		d := desc
		if len(d) > 900 {
			d = d[:900] + "..."
		}
		stats.Samples = append(stats.Samples, d)
	}
	stats.mu.Unlock()
}

// Count adds to a free-form counter of the evidence.
func Count(name string, n int) {
	stats.mu.Lock()
	stats.Extra[name] += n
	stats.mu.Unlock()
}

// FlushStats writes the counters where the runner expects them.
func FlushStats() {
	p := os.Getenv("HX_STATS")
	if p == "" {
		return
	}
	stats.mu.Lock()
	b, err := json.Marshal(&stats)
	stats.mu.Unlock()
	if err == nil {
		os.WriteFile(p+".tmp", b, 0o644)
		os.Rename(p+".tmp", p)
	}
}
