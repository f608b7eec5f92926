//go:build race

package hx

// RaceBuild says whether the race detector is compiled in.
const RaceBuild = true
