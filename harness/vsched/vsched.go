// Package vsched holds the schedule points that tools/instr puts into the code under test.
//
// A schedule point can hold its goroutine back for a while. The checks run every case in a
// testing/synctest bubble, whose clock is virtual: it moves only when every goroutine of the
// case is blocked or held back. So the delays chosen here, which are a function of the
// case's schedule seed, decide the order in which goroutines get to take their next
// step, at no cost in real time.
//
// The functions are marked norace and share plain variables on purpose: they must not add
// happens-before edges that would hide data races of the code under test.
package vsched

import (
	"fmt"
	"runtime"
	"time"
)

// MaxSites bounds the number of sites.
const MaxSites = 1 << 14

// AtomicSite is the site of every atomic operation.
const AtomicSite = MaxSites - 1

// MaxSteps is how many schedule points a case may pass. Real cases stay far below it.
const MaxSteps = 20_000_000

// fair is how many schedule points are passed before it is seen whether virtual time moves on.
const fair = 20_000

// Plan says what the schedule points do in one case.
type Plan struct {
	Kind   int    // 0: nothing; 1: random delays; 2: rare long delays; 3: long delays at chosen sites
	Seed   uint64 // drives all choices
	Prob   uint64 // kinds 1, 2: a point delays with probability Prob/256
	Max    int64  // longest short delay, ns
	Long   int64  // long delay, ns
	Sites  [3]int // kind 3: sites held
	Skip   int    // kind 3: hits let through before the first hold
	Holds  int    // kind 3: how many hits are held after that
	Points int    // kinds 1, 2: at most so many delays
}

var (
	on    bool
	plan  Plan
	state uint64
	left  int
	skips int
	hits  [MaxSites]uint32
	steps uint64
	limit uint64 = 1 << 63
	// mark is the value of steps when virtual time was looked at the last time, which was last.
	mark   uint64
	last   time.Time
	forced int
	// windows counts the calls of spinning in a case.
	windows int
	// InBubble tells vsync that blocking must be done by virtual sleeps.
	inBubble bool
	// pushed is the sum of the times slept for goroutines that were spinning.
	pushed time.Duration
	// extra is what Allow added to limit.
	extra uint64
	// cases counts the calls of Begin.
	cases uint64
)

// CaseNo identifies the case that is running.
//
//go:norace
func CaseNo() uint64 { return cases }

// Begin starts a case.
//
//go:norace
func Begin(p Plan) {
	plan = p
	state = p.Seed
	skips = p.Skip
	switch p.Kind {
	case 1, 2:
		left = p.Points
	case 3:
		left = p.Holds
	}
	inBubble = true
	cases++
	limit, extra = steps+MaxSteps, 0
	mark, last, forced, windows, pushed = steps, time.Time{}, 0, 0, 0
	on = p.Kind != 0
}

// Allow lets the case pass n more points.
//
//go:norace
func Allow(n uint64) { limit += n; extra += n }

// Passed returns how many points the case has passed.
//
//go:norace
func Passed() uint64 { return steps + MaxSteps + extra - limit }

// End ends a case: every point lets go from here on.
//
//go:norace
func End() { on = false }

// Off ends the bubble.
//
//go:norace
func Off() { on = false; inBubble = false; limit = 1 << 63 }

// InBubble reports whether a case is running.
//
//go:norace
func InBubble() bool { return inBubble }

// Steps returns the number of schedule points passed so far.
//
//go:norace
func Steps() uint64 { return steps }

// Hits returns the hit counts of the first n sites.
//
//go:norace
func Hits(n int) []uint32 {
	if n > MaxSites {
		n = MaxSites
	}
	out := make([]uint32, n)
	for i := range out {
		out[i] = hits[i]
	}
	return out
}

//go:norace
func next() uint64 {
	state += 0x9e3779b97f4a7c15
	z := state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// spinning lets virtual time go on if so many points were passed without that: something may be
// spinning until a goroutine that sleeps has gone on. The sleeps get longer and longer.
//
//go:norace
func spinning() {
	mark = steps
	now := time.Now()
	n := forced
	if on { // Then time moves on a little anyhow.
		windows++
		n = max(windows-10, 0)
	}
	d := int64(1) << min(n, 40)
	if d > plan.Long && plan.Long > 0 {
		d = plan.Long
	}
	if int64(now.Sub(last)) >= d {
		last = now
		return
	}
	last = now.Add(time.Duration(d))
	forced++
	pushed += time.Duration(d)
	time.Sleep(time.Duration(d))
}

// Pushed returns by how much time was moved on for goroutines that were spinning, or that only had a lot to do.
//
//go:norace
func Pushed() time.Duration { return pushed }

// Forced returns how often time had to be moved on for goroutines that were spinning.
//
//go:norace
func Forced() int { return forced }

// Y is a schedule point.
//
//go:norace
func Y(site int) {
	hits[site&(MaxSites-1)]++
	steps++
	if steps > limit {
		panic("zzverif: livelock: a case passed " + fmt.Sprint(MaxSteps) + " statements of the code under test without an end")
	}
	if inBubble && steps-mark > fair {
		spinning()
	}
	if !on {
		return
	}
	var d int64
	r := next()
	switch plan.Kind {
	case 1:
		if left > 0 && r&255 < plan.Prob {
			left--
			d = 1 + int64((r>>8)%uint64(plan.Max))
		}
	case 2:
		if left > 0 && r&255 < plan.Prob {
			left--
			d = 1 + int64((r>>8)%uint64(plan.Long))
		} else if r&0x700 == 0 {
			d = 1 + int64((r>>16)%uint64(plan.Max))
		}
	case 3:
		if left > 0 && (site == plan.Sites[0] || site == plan.Sites[1] || site == plan.Sites[2]) {
			if skips > 0 {
				skips--
			} else {
				left--
				d = plan.Long
			}
		} else if r&0x700 == 0 {
			d = 1 + int64((r>>16)%uint64(plan.Max))
		}
	}
	if d > 0 {
		time.Sleep(time.Duration(d))
	} else if r&0x3000 == 0 {
		runtime.Gosched()
	}
}

// String returns a compact form.
func (p Plan) String() string {
	return fmt.Sprint(p.Kind, p.Seed, p.Prob, p.Max, p.Long, p.Sites, p.Skip, p.Holds, p.Points)
}
