package hx

import (
	"flag"
	"hash/fnv"
	"os"
	"strconv"
	"testing"

	"pgregory.net/rapid"
)

// Seed is VERIF_SEED.
func Seed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Shard is this process's index and the number of processes that share the
// work of a check.
func Shard() (i, n int) {
	i, _ = strconv.Atoi(os.Getenv("HX_SHARD"))
	n, _ = strconv.Atoi(os.Getenv("HX_SHARDS"))
	if n < 1 {
		n = 1
	}
	return i, n
}

// Check runs a rapid property with a case count by tier and a seed that is a
// function of VERIF_SEED and the test's name only.
func Check(t *testing.T, quick, thorough int, prop func(*rapid.T)) {
	t.Helper()
	h := fnv.New64a()
	h.Write([]byte(t.Name()))
	h.Write([]byte(os.Getenv("HX_SHARD")))
	seed := (Seed()*1000003 + h.Sum64()) & (1<<62 - 1)
	if seed == 0 {
		seed = 1
	}
	if os.Getenv("HX_CHECKS") != "" {
		quick, _ = strconv.Atoi(os.Getenv("HX_CHECKS"))
		thorough = quick
	}
	flag.Set("rapid.checks", strconv.Itoa(Scale(quick, thorough)))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	rapid.Check(t, func(t *rapid.T) {
		defer watchCase()()
		prop(t)
	})
}

// Main is the TestMain body.
func Main(m *testing.M) {
	code := m.Run()
	FlushStats()
	KillAll()
	os.Exit(code)
}
