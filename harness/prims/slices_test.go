package prims

import (
	"context"
	"errors"
	"runtime"
	"strconv"
	"time"

	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/zzverif/engine"
	"github.com/gostdlib/concurrency/zzverif/spans"
)

// Exceptions to the default behaviour of the accessor.
type slX struct {
	I    int
	Err  int
	Work int
	Mods int  // how often the element is modified
	Own  bool // writes the element of the slice itself
	Till bool // waits for its context to be cancelled
	Canc bool // cancels the caller's context
	Exit bool // ends its goroutine in place of returning
}

type slCase struct {
	N     int
	Nil   bool
	Pool  poolSpec
	Stop  bool
	Mods  int // default number of modifications of an element
	Work  int
	X     []slX
	Ctx   int // 0 live, 1 cancelled before, 2 cancelled at At, 3 deadline at At
	At    int64
	Trace bool // the context carries a recording span
	Elem  int  // the type of the elements: 0 int, 1 any, 2 pointers, 3 slices, 4 strings, 5 large
	Plain bool // the context cannot be cancelled
	Again bool // run a second Access on the same pool afterwards
}

func init() {
	engine.Add(engine.Unit{
		Name:  "slices.access",
		Rule:  "a slice, an accessor that modifies, fails, works, waits for its context or cancels at generated indexes, options and a context that may be cancelled before or during; non-trivial: two or more elements and one of: an error, a cancellation, an option, an element modified more than once or not at all",
		Files: []string{"prim/", "goroutines/limited/", "goroutines/pooled/"},
	}, func(t *rapid.T) slCase {
		c := slCase{
			N:     engine.Size(t, "n", 0, 3000),
			Pool:  drawPool(t),
			Stop:  engine.Chance(t, "stop", 40),
			Mods:  engine.Pick(t, "mods", 1, 1, 1, 0, 2),
			Work:  engine.Work(t, "work"),
			Again: engine.Chance(t, "again", 20),
			Trace: drawTrace(t),
			Elem:  engine.Pick(t, "elem", 0, 0, 0, 1, 1, 2, 3, 4, 5),
		}
		if engine.Rare(t, "huge?", 8) {
			c.N = engine.Huge(t, "huge", 65537)
			c.Work = 0
		}
		c.Nil = c.N == 0 && rapid.Bool().Draw(t, "nil")
		nx := engine.Pick(t, "nx", 0, 0, 1, 1, 2, 3, 6, 12)
		if c.N > 0 {
			for i := 0; i < nx; i++ {
				c.X = append(c.X, slX{
					I:    rapid.IntRange(0, c.N-1).Draw(t, "i"),
					Err:  engine.Pick(t, "err", 0, 1, 1, 1, 1, 2, 3, 4, 5, 6, 7, 7, 8),
					Work: hours(t, "xw"),
					Mods: engine.Pick(t, "xm", 0, 1, 2, 3),
					Own:  engine.Chance(t, "own", 20),
					Till: engine.Chance(t, "till", 15),
					Canc: engine.Chance(t, "canc", 8),
					Exit: engine.Chance(t, "exit", 8),
				})
			}
			if engine.Chance(t, "allerr", 5) {
				for i := 0; i < min(c.N, 300); i++ {
					c.X = append(c.X, slX{I: i, Err: 1, Mods: 1})
				}
			}
		}
		c.Ctx = engine.Pick(t, "ctx", 0, 0, 0, 0, 1, 2, 2, 3)
		if engine.Focus == "C12" {
			c.Ctx = engine.Pick(t, "ctx2", 0, 0, 0, 0, 0, 2)
			c.Stop = engine.Chance(t, "stop2", 10)
		}
		if engine.Focus == "C13" && engine.Chance(t, "tostop", 40) {
			c.Stop, c.Ctx = true, 0
			c.Work = engine.Pick(t, "work2", 1, 2, 3, 4)
			for i := range c.X {
				c.X[i].Err = rapid.IntRange(0, maxErr).Draw(t, "err2")
			}
		}
		c.Plain = c.Ctx == 0 && engine.Chance(t, "plain", 20)
		c.At = int64(engine.Pick(t, "at", 0, 1, 2, 5, 20, 100, 1000, 5000, 100000, 1e13))
		return c
	}, func(c *slCase) {
		engine.Clamp(&c.N, 0, 70000)
		if c.N > 6000 {
			c.Pool.Meet, c.Again = false, false
			c.Work, c.Mods = 0, min(c.Mods, 1)
		}
		c.Pool.norm()
		engine.Clamp(&c.Mods, 0, 3)
		engine.Clamp(&c.Elem, 0, 5)
		engine.Clamp(&c.Ctx, 0, 3)
		engine.Clamp(&c.At, 0, int64(3*time.Hour))
		if c.N > 0 {
			c.Nil = false
		}
		var x []slX
		// Something has to end the context for an accessor to wait for that.
		over := c.Ctx != 0
		for _, v := range c.X {
			engine.Clamp(&v.Err, 0, maxErr)
			engine.Clamp(&v.Work, 0, 9)
			engine.Clamp(&v.Mods, 0, 5)
			if v.Exit {
				v.Err = 0
			}
			if v.I >= 0 && v.I < c.N {
				x = append(x, v)
			}
		}
		if len(x) > 400 {
			x = x[:400]
		}
		for i := range x {
			if i >= 20 && x[i].Work > 7 {
				x[i].Work = 0
			}
		}
		c.Plain = c.Plain && c.Ctx == 0
		for i := range x {
			x[i].Canc = x[i].Canc && !c.Plain
			x[i].Till = x[i].Till && over
		}
		c.X = x
		c.Pool.Meet = c.Pool.Meet && c.Ctx == 0 && len(c.X) == 0
		c.Pool.Busy = c.Pool.Busy && c.Ctx == 0
	}, runSlices)
}

// isNil says which values are the zero value of the type of the elements.
func isNil(n int) bool { return n%5 == 0 }

func runSlices(e *engine.Env, c slCase) {
	e.Allow(c.N * 500)
	switch c.Elem {
	case 0:
		runSlicesOf(e, c, elem[int]{func(n int) int { return n }, func(v int) int { return v }})
	case 1:
		runSlicesOf(e, c, elem[any]{func(n int) any {
			switch {
			case isNil(n):
				return nil
			case n%2 == 0:
				return []int{n}
			}
			return n
		}, func(v any) int {
			switch v := v.(type) {
			case int:
				return v
			case []int:
				return v[0]
			}
			return 0
		}})
	case 2:
		runSlicesOf(e, c, elem[*int]{func(n int) *int {
			if isNil(n) {
				return nil
			}
			return &n
		}, func(v *int) int {
			if v == nil {
				return 0
			}
			return *v
		}})
	case 3:
		runSlicesOf(e, c, elem[[]int]{func(n int) []int {
			if isNil(n) {
				return nil
			}
			return []int{n}
		}, func(v []int) int {
			if v == nil {
				return 0
			}
			return v[0]
		}})
	case 4:
		runSlicesOf(e, c, elem[string]{func(n int) string {
			if isNil(n) {
				return ""
			}
			return strconv.Itoa(n)
		}, func(v string) int {
			n, _ := strconv.Atoi(v)
			return n
		}})
	case 5:
		runSlicesOf(e, c, elem[[20]int]{func(n int) (a [20]int) {
			if !isNil(n) {
				a[0], a[19] = n, n
			}
			return a
		}, func(v [20]int) int {
			if v[0] != v[19] {
				return -1
			}
			return v[0]
		}})
	}
}

func runSlicesOf[T any](e *engine.Env, c slCase, el elem[T]) {
	key := func(n int) int {
		if c.Elem != 0 && isNil(n) {
			return 0
		}
		return n
	}
	e.Slack = 100 * time.Hour
	pool, opts := c.Pool.make()
	rounds := 1
	if c.Again && pool != nil {
		rounds = 2
	}
	for r := 0; r < rounds; r++ {
		where := engine.S("call %d", r)
		var so []slices.SliceOption
		if pool != nil {
			so = append(so, slices.WithPoolOptions(pool, opts...))
		}
		if c.Stop {
			so = append(so, slices.WithStopOnErr())
		}
		x := map[int]slX{}
		for _, v := range c.X {
			x[v.I] = v
		}
		var s []T
		if !c.Nil {
			s = make([]T, c.N)
		}
		orig := make([]int, c.N)
		want := make([]int, c.N)
		for i := range s {
			orig[i], want[i] = i*7+1, i*7+1
			s[i] = el.to(orig[i])
		}
		side := make([]int, c.N) // plain: one write per element
		begun := make([]engine.Counter, c.N)
		t0 := time.Now()
		var errAt engine.Counter // virtual time+1 of the first accessor error
		var cancAt engine.Counter
		var g gauge
		var running engine.Counter
		var badVal, badMod, badCtx, late, notIn, badSpan engine.Counter
		mt := newMeet(c.Pool.meeting(c.N))
		failedErr := make([]error, c.N)
		rec, base := spans.On(context.Background(), c.Trace)
		ctx, cancel := context.WithCancel(engine.WithTag(base, r+1))
		if c.Plain {
			cancel()
			ctx, cancel = engine.WithTag(base, r+1), func() {}
		}
		markCancel := func() {
			if cancAt.Load() == 0 {
				cancAt.Add(since(t0) + 1)
			}
		}
		switch c.Ctx {
		case 1:
			cancel()
			markCancel()
		case 2:
			tm := time.AfterFunc(time.Duration(c.At), func() { markCancel(); cancel() })
			defer tm.Stop()
		case 3:
			var st context.CancelFunc
			ctx, st = context.WithTimeout(ctx, time.Duration(c.At))
			defer st()
			cancAt.Add(c.At + 1)
		}
		callers := ctx
		access := func(ctx context.Context, i int, x0 T, m slices.Modifier[T]) error {
			n := since(t0) + 1
			begun[i].Add(1)
			running.Add(1)
			g.enter()
			defer running.Add(-1)
			defer g.leave()
			v := orig[i]
			if el.from(x0) != key(v) {
				badVal.Add(1)
			}
			if engine.Tag(ctx) != any(r+1) {
				badCtx.Add(1)
			}
			if e.Exact() {
				// No schedule points: nothing takes time but the accessors, so that one that starts later than
				// an error or a cancellation was started in spite of it.
				if a := errAt.Load(); c.Stop && a != 0 && n > a {
					late.Add(1)
				}
				if a := cancAt.Load(); a != 0 && n > a {
					late.Add(1)
				}
			}
			v2, ok := x[i]
			if !ok {
				v2 = slX{Work: c.Work, Mods: c.Mods}
			}
			for k := 1; k <= v2.Mods; k++ {
				want[i] = v*1000 + k + i%5
				m(el.to(want[i]))
				if el.from(s[i]) != key(want[i]) {
					badMod.Add(1)
				}
			}
			if v2.Own {
				want[i] = v*1000 + 500 + i%5
				s[i] = el.to(want[i])
			}
			if v2.Canc {
				markCancel()
				cancel()
			}
			if c.Trace {
				inSpan(ctx, rec, &badSpan)
			}
			if pool != nil && pool.Running() < 1 {
				notIn.Add(1)
			}
			if mt.n > 0 {
				mt.arrive()
			}
			engine.DoWork(v2.Work)
			if v2.Till {
				<-ctx.Done()
			}
			if !engine.CtxOK(ctx, callers) {
				badCtx.Add(1)
			}
			side[i]++
			if v2.Exit {
				runtime.Goexit()
			}
			err, _ := mkErr(v2.Err, i)
			if err != nil {
				failedErr[i] = err
				if errAt.Load() == 0 {
					errAt.Add(since(t0) + 1)
				}
			}
			return err
		}
		var err error
		release := c.Pool.occupy(pool)
		d := engine.Go(func() { err = slices.Access(ctx, s, access, so...) })
		if c.Pool.Busy {
			if !c.Pool.NB {
				e.Settle()
				for i := range begun {
					if begun[i].Load() > 0 {
						e.Failf("C17", "%s: the accessor is called for index %d while others have taken all of the pool", where, i)
						break
					}
				}
			} else if !e.Until(d) {
				e.Failf("C17", "%s: Access waits for a slot of the pool although NonBlocking was given", where)
			}
			release()
		}
		if !e.Until(d) {
			e.Failf("C12 C13 C17", "%s: Access does not return although every accessor can finish", where)
			cancel()
			return
		}
		<-d
		if n := running.Load(); n != 0 {
			e.Failf("C12 C13", "%s: Access returned with %d accessors running", where, n)
		}
		// From here on an accessor that runs is also seen by the race detector.
		var calls, errs int
		var is []error
		realErr := false
		for i := range s {
			b := begun[i].Load()
			if b > 1 || int64(side[i]) != b {
				e.Failf("C12 C13", "%s: the accessor was called %d times for index %d (finished %d times)", where, b, i, side[i])
				break
			}
			if x := el.from(s[i]); x != key(want[i]) {
				e.Failf("C12", "%s: s[%d] = %d, want %d", where, i, x, key(want[i]))
				break
			}
			calls += int(b)
			if failedErr[i] != nil {
				errs++
				_, l := mkErrSame(x[i].Err, failedErr[i])
				is = append(is, l...)
				if x[i].Err != eCanceled && x[i].Err != eDeadline {
					realErr = true
				}
			}
		}
		cancelled := cancAt.Load() != 0 && (ctx.Err() != nil)
		stopped := c.Stop && errs > 0
		if n := notIn.Load(); n != 0 {
			e.Failf("C17", "%s: %d accessors ran while nothing was running in the pool", where, n)
		}
		checkSpans(e, where, c.Trace, rec, &badSpan)
		if badVal.Load() != 0 {
			e.Failf("C12", "%s: an accessor was given a value other than the element's", where)
		}
		if badMod.Load() != 0 {
			e.Failf("C12", "%s: an element did not have the value it had just been given", where)
		}
		if badCtx.Load() != 0 {
			e.Failf("C12 C13", "%s: an accessor was given a context that does not derive from the caller's", where)
		}
		if late.Load() != 0 {
			e.Failf("C13", "%s: %d accessors started after the operation had been stopped or cancelled", where, late.Load())
		}
		if !cancelled && !stopped && calls != c.N {
			e.Failf("C12", "%s: the accessor was called for %d of %d elements although nothing stopped the operation", where, calls, c.N)
		}
		switch {
		case err == nil && errs > 0:
			e.Failf("C13", "%s: Access returned nil although %d accessors failed", where, errs)
		case err == nil && calls != c.N:
			e.Failf("C13", "%s: Access returned nil although only %d of %d elements were processed", where, calls, c.N)
		case err != nil && errs == 0 && !cancelled:
			e.Failf("C13 C17", "%s: Access returned %q although nothing failed", where, err)
		case err != nil && errs == 0 && calls == c.N:
			e.Failf("C13", "%s: Access returned %q although all %d elements were processed without error", where, err, calls)
		case err != nil && errs > 0 && !cancelled && !c.Stop && missing(err, is) != nil:
			e.Failf("C13", "%s: %d accessors failed and the error of Access does not lead to %q", where, errs, missing(err, is))
		case err != nil && errs > 0 && realErr && !cancelled:
			// The caller's context was live, so an accessor's error comes first.
			ok := false
			for _, y := range is {
				ok = ok || errors.Is(err, y)
			}
			for i := range failedErr {
				if f := failedErr[i]; f != nil && (x[i].Err == eCanceled || x[i].Err == eDeadline) && errors.Is(err, f) {
					ok = true
				}
			}
			if !ok {
				e.Failf("C13", "%s: the error of Access (%q) leads to none of the accessors' errors", where, err)
			}
			for i := range failedErr {
				f := failedErr[i]
				if f == nil {
					continue
				}
				// With one accessor at a time the first error is that of the lowest index.
				leads := false
				_, l := mkErrSame(x[i].Err, f)
				for _, y := range append(l, f) {
					leads = leads || errors.Is(err, y)
				}
				if c.Pool.cap() == 1 && !leads {
					e.Failf("C13", "%s: the error of Access (%q) does not lead to the first error (%q, index %d)", where, err, f, i)
				}
				break
			}
		case err != nil && errs == 0 && cancelled && !errors.Is(err, ctx.Err()):
			e.Failf("C13", "%s: the context was cancelled (%v) and Access returned %q", where, ctx.Err(), err)
		}
		if c.Ctx == 1 && c.N > 0 && (calls > 0 || err == nil) {
			e.Failf("C13", "%s: with a cancelled context Access processed %d elements and returned %v", where, calls, err)
		}
		lim := c.Pool.cap()
		if pool == nil {
			lim = runtime.NumCPU()
		}
		if lim > 0 && g.peak.Load() > int64(lim) {
			e.Failf("C17", "%s: %d accessors ran at once, the pool allows %d", where, g.peak.Load(), lim)
		}
		cancel()
		if c.N >= 2 && (errs > 0 || cancelled || c.Stop || pool != nil || c.Mods != 1) {
			e.NonTrivial()
		}
		e.LabelIf(c.Elem != 0 && c.N > 0, "elements other than int")
		e.LabelIf(c.Pool.Busy && c.N > 0, "pool taken by others")
		e.LabelIf(mt.n > 1, "accessors wait for each other")
		e.LabelIf(errs > 0, "accessor failed")
		e.LabelIf(errs > 1, "several accessors failed")
		e.LabelIf(stopped, "stopped on error")
		e.LabelIf(cancelled, "cancelled")
		e.LabelIf(cancelled && calls > 0 && calls < c.N, "cancelled half way")
		e.LabelIf(stopped && calls < c.N, "elements skipped after an error")
		e.LabelIf(c.N > 100, "more than 100 elements")
		e.Label(c.Pool.String())
	}
	if pool != nil {
		after := make(chan struct{})
		if err := pool.Submit(context.Background(), func(context.Context) { close(after) }); err != nil || !e.Until(after) {
			e.Failf("C17", "the pool cannot be used any more after Access (%v)", err)
		}
		cl := engine.Go(pool.Close)
		if !e.Until(cl) {
			e.Failf("C12 C17", "the pool cannot be closed after Access")
		}
	}
}

// mkErrSame returns what errors.Is must find for an error made by mkErr.
func mkErrSame(kind int, err error) (error, []error) {
	switch kind {
	case eJoined:
		return err, err.(interface{ Unwrap() []error }).Unwrap()
	case eCanceled, eDeadline:
		return err, nil
	case eValue:
		return err, []error{mark{err.(valErr).id}}
	}
	return err, []error{err}
}
