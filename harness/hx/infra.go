// Package hx holds the shared machinery of the checks: memcached processes,
// a raw observer connection, a fault injecting relay, generators, the
// reference model and the case statistics.
package hx

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// ExitInfra is the exit status that says "the check could not run", which the
// runner maps to an error exit, never to a violation.
const ExitInfra = 77

// Infra ends the process because the environment (not the code under test)
// failed.
func Infra(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "INFRA: "+format+"\n", args...)
	FlushStats()
	KillAll()
	os.Exit(ExitInfra)
}

// ExitViolated is the exit status of Violated.
const ExitViolated = 78

// Violated ends the process because the code under test failed in a way that
// leaves the case unable to continue (a call that never returns, a server that
// stopped accepting).
func Violated(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "VIOLATED: "+format+"\n", args...)
	FlushStats()
	KillAll()
	os.Exit(ExitViolated)
}

// stuckAfter is how long one case may take before its goroutines are looked
// at. Cases take seconds.
const stuckAfter = 100 * time.Second

// watchCase ends the process when the case has been inside the code under test
// for minutes, blocked or busy, in a call that is not under a watchdog of its
// own. It returns a function that ends the watch.
func watchCase() func() {
	done := make(chan struct{})
	go func() {
		tm := time.NewTimer(stuckAfter)
		defer tm.Stop()
		seen := 0
		for {
			select {
			case <-done:
				return
			case <-tm.C:
			}
			buf := make([]byte, 4<<20)
			buf = buf[:runtime.Stack(buf, true)]
			for _, g := range strings.Split(string(buf), "\n\n") {
				head, _, _ := strings.Cut(g, "\n")
				i, j := strings.Index(g, "go.f110.dev/go-memcached/"), strings.Index(g, "verif/harness/checks.")
				if i < 0 || j < i || !strings.Contains(g, "pgregory.net/rapid.") {
					continue
				}
				seen++
				if strings.Contains(head, " minutes]") || seen >= 6 {
					Violated("a call has not returned for minutes:\n%s", g)
				}
			}
			tm.Reset(20 * time.Second)
		}
	}()
	return func() { close(done) }
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Scale picks a case count by tier.
func Scale(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// TB is what the helpers need of *rapid.T and *testing.T.
type TB interface {
	Helper()
	Fatalf(format string, args ...interface{})
	Logf(format string, args ...interface{})
}

var hung atomic.Bool

// CallLimit is how long a call against a responsive peer may take before it
// is a hang. It is hundreds of times what a loaded machine needs; once a hang
// was seen, shrinking uses a shorter limit.
func CallLimit() time.Duration {
	if hung.Load() {
		return 4 * time.Second
	}
	return 30 * time.Second
}

// Call runs fn and fails t when fn panics or does not return.
func Call(t TB, what string, fn func()) {
	t.Helper()
	if msg := Try(fn); msg != "" {
		t.Fatalf("%s: %s", what, msg)
	}
}

// Try runs fn under the watchdog and returns "" or what went wrong.
func Try(fn func()) string { return TryFor(CallLimit(), fn) }

// TryFor is Try with a limit of its own.
func TryFor(limit time.Duration, fn func()) string {
	defer noteTook(time.Now())
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("PANIC %v\n%s", r, trimStack(string(debug.Stack())))
				return
			}
			done <- ""
		}()
		fn()
	}()
	tm := time.NewTimer(limit)
	defer tm.Stop()
	select {
	case m := <-done:
		return m
	case <-tm.C:
		hung.Store(true)
		return fmt.Sprintf("HANG: no return within %v", limit)
	}
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-memcached") || strings.Contains(l, "/repo/") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// WaitFor polls cond until it holds or the limit passes.
func WaitFor(limit time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(limit)
	d := 200 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(d)
		if d < 20*time.Millisecond {
			d *= 2
		}
	}
}

// slowest is how long, in seconds, the slowest thing done so far took: a call,
// a look at the server, or nothing but waiting for the processor.
var slowest atomic.Int64

func noteTook(start time.Time) {
	d := int64(time.Since(start) / time.Second)
	for {
		if s := slowest.Load(); d <= s || slowest.CompareAndSwap(s, d) {
			return
		}
	}
}

func init() {
	go func() {
		for {
			start := time.Now()
			time.Sleep(50 * time.Millisecond)
			noteTook(start)
		}
	}()
}

// TTLSlack is the tolerance in seconds when remaining lifetimes are compared:
// two clocks tick in whole seconds, and on a busy machine any two moments that
// belong together may be as far apart as the slowest thing took.
func TTLSlack() int64 { return 3 + 2*slowest.Load() }
