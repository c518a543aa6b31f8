// Package xadd is an atomic add that the race detector does not see, so that the harness's own
// counters add no happens-before edges.
package xadd

// Xadd adds d to *p and returns the new value.
//
//go:noescape
func Xadd(p *uint64, d uint64) uint64

// Xmax makes *p at least v (both as signed numbers).
//
//go:noescape
func Xmax(p *uint64, v uint64)
