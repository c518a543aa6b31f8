package engine

import (
	"context"
	"fmt"
	"time"

	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/zzverif/vsched"
)

// Size draws a size in [lo, hi]: mostly small, with boundaries, powers of two, and the integer
// literals of the code under test (and their neighbours), and now and then anything up to hi.
func Size(t *rapid.T, label string, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	k := rapid.IntRange(0, 99).Draw(t, label+".k")
	clampTo := func(v int) int {
		if v < lo {
			return lo
		}
		if v > hi {
			return hi
		}
		return v
	}
	switch {
	case k < 8:
		return lo
	case k < 55:
		return clampTo(rapid.IntRange(lo, lo+8).Draw(t, label))
	case k < 72:
		return clampTo(rapid.IntRange(lo, lo+40).Draw(t, label))
	case k < 84:
		b := rapid.IntRange(1, 13).Draw(t, label+".b")
		return clampTo(1<<b + rapid.IntRange(-1, 1).Draw(t, label+".d"))
	case k < 94:
		if n := len(TheDict.Ints); n > 0 {
			i := rapid.IntRange(0, n-1).Draw(t, label+".i")
			v := int(TheDict.Ints[i])
			if v <= hi {
				return clampTo(v + rapid.IntRange(-1, 1).Draw(t, label+".d"))
			}
		}
		return clampTo(rapid.IntRange(lo, lo+100).Draw(t, label))
	default:
		return rapid.IntRange(lo, hi).Draw(t, label)
	}
}

// Pick draws one of the values.
func Pick[V any](t *rapid.T, label string, vs ...V) V {
	return vs[rapid.IntRange(0, len(vs)-1).Draw(t, label)]
}

// Chance is true with probability p percent.
func Chance(t *rapid.T, label string, p int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) < p
}

// Clamp bounds *v.
func Clamp[V int | int64](v *V, lo, hi V) {
	if *v < lo {
		*v = lo
	}
	if *v > hi {
		*v = hi
	}
}

// Work draws how long a job works, as an index for DoWork.
func Work(t *rapid.T, label string) int {
	return Pick(t, label, 0, 0, 0, 1, 2, 3, 4, 5, 6)
}

// DoWork works for the given index: nothing, a yield, or a while of virtual time.
func DoWork(w int) {
	switch {
	case w <= 0:
	case w == 1:
		time.Sleep(1)
	case w == 2:
		time.Sleep(3)
	case w == 3:
		time.Sleep(10)
	case w == 4:
		time.Sleep(100)
	case w == 5:
		time.Sleep(time.Microsecond)
	case w == 6:
		time.Sleep(time.Millisecond)
	case w == 7:
		time.Sleep(1100 * time.Millisecond)
	case w == 8:
		time.Sleep(2 * time.Minute)
	default:
		time.Sleep(3 * time.Hour)
	}
}

type ctxKey struct{}

// WithTag returns a context that carries a tag.
func WithTag(ctx context.Context, tag any) context.Context {
	return context.WithValue(ctx, ctxKey{}, tag)
}

// Tag returns the tag carried by ctx.
func Tag(ctx context.Context) any { return ctx.Value(ctxKey{}) }

// CtxOK reports whether got, the context that a function was given, is or derives from want: it has the
// same deadline and is over if want is.
func CtxOK(got, want context.Context) bool {
	d1, ok1 := got.Deadline()
	d2, ok2 := want.Deadline()
	if ok1 != ok2 || !d1.Equal(d2) {
		return false
	}
	if want.Err() == nil {
		return true
	}
	// One that derives from it may take a moment to end.
	tm := time.NewTimer(time.Minute)
	defer tm.Stop()
	select {
	case <-got.Done():
		return true
	case <-tm.C:
		return false
	}
}

// Go runs f in a goroutine and gives a channel that is closed when f has returned.
func Go(f func()) <-chan struct{} {
	ch := make(chan struct{})
	go func() { defer close(ch); f() }()
	return ch
}

// Done reports whether ch is closed.
func Done(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// Until waits for ch, for as long as anything can still happen, and reports whether it closed.
func (e *Env) Until(ch <-chan struct{}) bool {
	p := vsched.Pushed()
	for d := e.settle(); d > 0; {
		tm := time.NewTimer(d)
		select {
		case <-ch:
			tm.Stop()
			return true
		case <-tm.C:
		}
		// What the points passed in the meantime have slept is not part of it: something goes on.
		d = vsched.Pushed() - p
		p += d
	}
	return false
}

// S formats.
func S(format string, a ...any) string { return fmt.Sprintf(format, a...) }

// Huge draws a size beyond those of Size: about a power of two, a round number, or a number that the code under test names.
func Huge(t *rapid.T, label string, hi int) int {
	var l []int
	for _, n := range TheDict.Ints {
		if n > 250 && n <= int64(hi) {
			l = append(l, int(n))
		}
	}
	n := Pick(t, label, 1001, 1025, 2049, 3001, 4097, 5001, 8193, 10001, 16385, 20001, 32769, 65537)
	if len(l) > 0 && rapid.Bool().Draw(t, label+".named?") {
		n = l[rapid.IntRange(0, len(l)-1).Draw(t, label+".named")] + rapid.IntRange(-1, 2).Draw(t, label+".d")
	}
	return min(n, hi)
}

// Rare is true n times in a thousand. (Chance is true more often than that for small chances, as rapid likes
// small numbers.)
func Rare(t *rapid.T, label string, n int) bool {
	v := uint64(rapid.IntRange(0, 1<<30).Draw(t, label)) + 0x9e3779b97f4a7c15
	v = (v ^ v>>30) * 0xbf58476d1ce4e5b9
	v = (v ^ v>>27) * 0x94d049bb133111eb
	return (v^v>>31)%1000 >= uint64(1000-n)
}
