package prims

import (
	"context"
	"errors"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/zzverif/engine"
	"github.com/gostdlib/concurrency/zzverif/spans"
)

type chCase struct {
	Modify  bool
	N       int
	Senders int
	Cap     int
	OutCap  int
	Pool    poolSpec
	Stop    bool
	Work    int
	SWork   int // time between two sends
	CWork   int // time the consumer takes
	X       []slX
	Ctx     int // 0 live, 1 cancelled before, 2 cancelled at At, 3 deadline at At
	At      int64
	NoClose bool // the input is never closed (only if something stops the call)
	Leave   bool // the consumer stops reading when the context is over
	Nil     int  // 0 none, 1 nil input, 2 nil output
	Again   bool
	Trace   bool // the context carries a recording span
	Idle    int  // the sender of so many values (from 1) does nothing for hours before that
	Rest    int  // the consumer does nothing for hours after so many results (from 1)
	Elem    int  // the types of the channels: 0 int and string, 1 any, 2 pointers, 3 errors, 4 slices
	Zero    int  // the value that is nil, with Elem
	Win     int  // at most so many values are on their way; the next is sent when one has been dealt with
}

func init() {
	engine.Add(engine.Unit{
		Name:  "chans",
		Rule:  "Access or Modify over a channel fed by one or more senders, with functions that fail, work, wait for their context or cancel at generated values, options, inputs that are never closed and consumers that leave; non-trivial: two or more values and one of: several senders, an error, a cancellation, an option",
		Files: []string{"prim/", "goroutines/limited/", "goroutines/pooled/"},
	}, func(t *rapid.T) chCase {
		c := chCase{
			Modify:  rapid.Bool().Draw(t, "modify"),
			N:       engine.Size(t, "n", 0, 2500),
			Senders: engine.Pick(t, "senders", 1, 1, 1, 2, 4),
			Cap:     engine.Pick(t, "cap", 0, 1, 1, 3, 100),
			OutCap:  engine.Pick(t, "outcap", 0, 1, 1, 3, 100),
			Pool:    drawPool(t),
			Stop:    engine.Chance(t, "stop", 40),
			Work:    engine.Work(t, "work"),
			SWork:   engine.Pick(t, "swork", 0, 0, 0, 1, 3, 5),
			CWork:   engine.Pick(t, "cwork", 0, 0, 0, 1, 3, 5),
			Again:   engine.Chance(t, "again", 15),
			Trace:   drawTrace(t),
			Idle:    engine.Pick(t, "idle", 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 5),
			Rest:    engine.Pick(t, "rest", 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 5),
			Elem:    engine.Pick(t, "elem", 0, 0, 0, 0, 0, 0, 1, 2, 3, 4),
			Win:     engine.Pick(t, "win", 0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 10),
		}
		if c.Elem != 0 && c.N > 0 {
			c.Zero = rapid.IntRange(0, c.N-1).Draw(t, "zero")
		}
		switch engine.Focus {
		case "C14":
			c.Modify = false
		case "C15":
			c.Modify = true
		}
		nx := engine.Pick(t, "nx", 0, 0, 1, 1, 2, 3, 6, 12)
		if c.N > 0 {
			for i := 0; i < nx; i++ {
				c.X = append(c.X, slX{
					I:    rapid.IntRange(0, c.N-1).Draw(t, "i"),
					Err:  engine.Pick(t, "err", 0, 1, 1, 1, 1, 2, 3, 4, 5, 6, 7, 7, 8),
					Work: hours(t, "xw"),
					Till: engine.Chance(t, "till", 15),
					Canc: engine.Chance(t, "canc", 8),
					Exit: engine.Chance(t, "exit", 8),
				})
			}
			if engine.Chance(t, "allerr", 5) {
				for i := 0; i < min(c.N, 300); i++ {
					c.X = append(c.X, slX{I: i, Err: 1, Mods: 1})
				}
			}
		}
		c.Ctx = engine.Pick(t, "ctx", 0, 0, 0, 0, 1, 2, 2, 3)
		switch engine.Focus {
		case "C14", "C15":
			c.Ctx = engine.Pick(t, "ctx2", 0, 0, 0, 0, 0, 2)
			c.Stop = engine.Chance(t, "stop2", 10)
		case "C16":
			c.Ctx = engine.Pick(t, "ctx3", 0, 0, 1, 2, 2, 2, 3)
			c.Stop = engine.Chance(t, "stop3", 50)
		}
		if engine.Focus == "C16" && engine.Chance(t, "tostop", 25) {
			c.Modify, c.Stop, c.Ctx = false, true, 0
			c.Work = engine.Pick(t, "work2", 1, 2, 3, 4)
			for i := range c.X {
				c.X[i].Err = rapid.IntRange(0, maxErr).Draw(t, "err2")
			}
		}
		if engine.Rare(t, "huge?", 8) {
			c.N = engine.Huge(t, "huge", 22000)
		}
		c.At = int64(engine.Pick(t, "at", 0, 1, 2, 5, 20, 100, 1000, 5000, 100000, 1e13))
		c.NoClose = engine.Chance(t, "noclose", 40)
		c.Leave = engine.Chance(t, "leave", 40)
		c.Nil = engine.Pick(t, "nilch", 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2)
		return c
	}, func(c *chCase) {
		engine.Clamp(&c.N, 0, 25000)
		if c.N > 6000 {
			c.Pool.Meet, c.Again = false, false
			c.Work, c.SWork, c.CWork = 0, 0, 0
		}
		engine.Clamp(&c.Senders, 1, 8)
		engine.Clamp(&c.Cap, 0, 10000)
		engine.Clamp(&c.OutCap, 0, 10000)
		c.Pool.norm()
		engine.Clamp(&c.Ctx, 0, 3)
		engine.Clamp(&c.Nil, 0, 2)
		engine.Clamp(&c.Win, 0, 10000)
		engine.Clamp(&c.Elem, 0, 4)
		if c.Pool.Meet || c.Nil != 0 {
			c.Win = 0
		}
		engine.Clamp(&c.At, 0, int64(3*time.Hour))
		var x []slX
		over := c.Ctx != 0
		for _, v := range c.X {
			engine.Clamp(&v.Err, 0, maxErr)
			engine.Clamp(&v.Work, 0, 9)
			if v.Exit {
				v.Err = 0
			}
			if v.I >= 0 && v.I < c.N {
				x = append(x, v)
			}
		}
		if len(x) > 400 {
			x = x[:400]
		}
		for i := range x {
			if i >= 20 && x[i].Work > 7 {
				x[i].Work = 0
			}
		}
		for i := range x {
			x[i].Till = x[i].Till && over
		}
		c.X = x
		// An input that is not closed needs something that ends the call for sure.
		c.NoClose = c.NoClose && over
		c.Leave = c.Leave && over
		c.Pool.Meet = c.Pool.Meet && c.Ctx == 0 && len(c.X) == 0
		c.Pool.Busy = c.Pool.Busy && c.Ctx == 0
	}, runChans)
}

func runChans(e *engine.Env, c chCase) {
	e.Allow(c.N * 500)
	e.Slack = 100 * time.Hour
	pool, opts := c.Pool.make()
	rounds := 1
	if c.Again && pool != nil {
		rounds = 2
	}
	for r := 0; r < rounds; r++ {
		var so []chans.Option
		if pool != nil {
			so = append(so, chans.WithPoolOptions(pool, opts...))
		}
		if c.Stop {
			so = append(so, chans.WithStopOnErr())
		}
		ok := false
		switch c.Elem {
		case 0:
			ok = chansRound(e, c, r, pool, so, elem[int]{func(i int) int { return i }, func(v int) int { return v }},
				elem[string]{func(i int) string { return engine.S("v%d", i) }, func(v string) int {
					if n, err := strconv.Atoi(strings.TrimPrefix(v, "v")); err == nil && v[0] == 'v' {
						return n
					}
					return -1
				}})
		case 1:
			el := elem[any]{func(i int) any {
				if i == c.Zero {
					return nil
				}
				return i
			}, func(v any) int {
				if v == nil {
					return c.Zero
				}
				return v.(int)
			}}
			ok = chansRound(e, c, r, pool, so, el, el)
		case 2:
			el := elem[*int]{func(i int) *int {
				if i == c.Zero {
					return nil
				}
				return &i
			}, func(v *int) int {
				if v == nil {
					return c.Zero
				}
				return *v
			}}
			ok = chansRound(e, c, r, pool, so, el, el)
		case 3:
			el := elem[error]{func(i int) error {
				if i == c.Zero {
					return nil
				}
				return mark{i}
			}, func(v error) int {
				if v == nil {
					return c.Zero
				}
				return v.(mark).id
			}}
			ok = chansRound(e, c, r, pool, so, el, el)
		case 4:
			el := elem[[]int]{func(i int) []int {
				if i == c.Zero {
					return nil
				}
				return []int{i}
			}, func(v []int) int {
				if v == nil {
					return c.Zero
				}
				return v[0]
			}}
			ok = chansRound(e, c, r, pool, so, el, el)
		}
		if !ok {
			return
		}
	}
	if pool != nil {
		after := make(chan struct{})
		if err := pool.Submit(context.Background(), func(context.Context) { close(after) }); err != nil || !e.Until(after) {
			e.Failf("C17", "the pool cannot be used any more after the call (%v)", err)
		}
		cl := engine.Go(pool.Close)
		if !e.Until(cl) {
			e.Failf("C16 C17", "the pool cannot be closed after the call")
		}
	}
	e.Label(c.Pool.String())
}

// elem turns an index into a value of a channel and back; from gives -1 for what no index gives.
type elem[T any] struct {
	to   func(int) T
	from func(T) int
}

func chansRound[I, O any](e *engine.Env, c chCase, r int, pool goroutines.Pool, so []chans.Option, ie elem[I], oe elem[O]) bool {
	name := "Access"
	main := "C14"
	if c.Modify {
		name, main = "Modify", "C15"
	}
	where := engine.S("call %d (%s)", r, name)
	x := map[int]slX{}
	for _, v := range c.X {
		x[v.I] = v
	}
	input := make(chan I, c.Cap)
	output := make(chan chans.StreamResult[O], c.OutCap)
	side := make([]int, c.N)
	begun := make([]engine.Counter, c.N)
	failedErr := make([]error, c.N)
	t0 := time.Now()
	var errAt, cancAt, running, badCtx, late, notIn, badSpan engine.Counter
	mt := newMeet(c.Pool.meeting(c.N))
	var g gauge
	rec, base := spans.On(context.Background(), c.Trace)
	ctx, cancel := context.WithCancel(engine.WithTag(base, r+1))
	markCancel := func() {
		if cancAt.Load() == 0 {
			cancAt.Add(since(t0) + 1)
		}
	}
	switch c.Ctx {
	case 1:
		cancel()
		markCancel()
	case 2:
		tm := time.AfterFunc(time.Duration(c.At), func() { markCancel(); cancel() })
		defer tm.Stop()
	case 3:
		var st context.CancelFunc
		ctx, st = context.WithTimeout(ctx, time.Duration(c.At))
		defer st()
		cancAt.Add(c.At + 1)
	}
	defer cancel()
	var window chan struct{}
	if c.Win > 0 {
		window = make(chan struct{}, c.Win)
	}
	dealtWith := func() {
		select {
		case <-window:
		default:
		}
	}
	callers := ctx
	body := func(ctx context.Context, v int) error {
		n := since(t0) + 1
		begun[v].Add(1)
		running.Add(1)
		g.enter()
		defer running.Add(-1)
		defer g.leave()
		if engine.Tag(ctx) != any(r+1) {
			badCtx.Add(1)
		}
		if e.Exact() {
			// A Modifier's failure counts only when its result has been passed on, so this looks at Access.
			if a := errAt.Load(); !c.Modify && c.Stop && a != 0 && n > a {
				late.Add(1)
			}
			if a := cancAt.Load(); a != 0 && n > a {
				late.Add(1)
			}
		}
		v2, ok := x[v]
		if !ok {
			v2 = slX{Work: c.Work}
		}
		if v2.Canc {
			markCancel()
			cancel()
		}
		if c.Trace {
			inSpan(ctx, rec, &badSpan)
		}
		if pool != nil && pool.Running() < 1 {
			notIn.Add(1)
		}
		if mt.n > 0 {
			mt.arrive()
		}
		engine.DoWork(v2.Work)
		if v2.Till {
			<-ctx.Done()
		}
		if !engine.CtxOK(ctx, callers) {
			badCtx.Add(1)
		}
		side[v]++
		if v2.Exit || !c.Modify {
			defer dealtWith()
		}
		if v2.Exit {
			runtime.Goexit()
		}
		err, _ := mkErr(v2.Err, v)
		if err != nil {
			failedErr[v] = err
			if errAt.Load() == 0 {
				errAt.Add(since(t0) + 1)
			}
		}
		return err
	}
	stop := make(chan struct{})
	var left atomic.Int64
	left.Add(int64(c.Senders))
	var ends []<-chan struct{}
	for s := 0; s < c.Senders; s++ {
		ends = append(ends, engine.Go(func() {
			defer func() {
				if left.Add(-1) == 0 && !c.NoClose {
					close(input)
				}
			}()
			for i := s; i < c.N; i += c.Senders {
				engine.DoWork(c.SWork)
				if c.Idle > 0 && i == c.Idle-1 {
					select {
					case <-time.After(5 * time.Hour):
					case <-stop:
						return
					}
				}
				if window != nil {
					select {
					case window <- struct{}{}:
					case <-stop:
						return
					}
				}
				select {
				case input <- ie.to(i):
				case <-stop:
					return
				}
			}
		}))
	}
	var results []chans.StreamResult[O]
	var closed, leftEarly bool
	var cons <-chan struct{}
	if c.Modify && c.Nil != 2 {
		cons = engine.Go(func() {
			done := ctx.Done()
			if !c.Leave {
				done = nil
			}
			for {
				select {
				case <-done:
					leftEarly = true
					return
				case res, ok := <-output:
					if !ok {
						closed = true
						return
					}
					results = append(results, res)
					dealtWith()
					engine.DoWork(c.CWork)
					if len(results) == c.Rest {
						select {
						case <-time.After(5 * time.Hour):
						case <-stop:
							return
						}
					}
				case <-stop:
					return
				}
			}
		})
	}
	in := (<-chan I)(input)
	if c.Nil == 1 {
		in = nil
	}
	out := (chan<- chans.StreamResult[O])(output)
	if c.Nil == 2 {
		out = nil
	}
	var err error
	release := c.Pool.occupy(pool)
	d := engine.Go(func() {
		if c.Modify {
			err = chans.Modify(ctx, in, out, func(ctx context.Context, v I) (O, error) {
				i := ie.from(v)
				if err := body(ctx, i); err != nil {
					return oe.to(-2 - i), err
				}
				return oe.to(i), nil
			}, so...)
		} else {
			err = chans.Access(ctx, in, func(ctx context.Context, v I) error {
				return body(ctx, ie.from(v))
			}, so...)
		}
	})
	if c.Pool.Busy {
		if !c.Pool.NB {
			e.Settle()
			if begunAny(begun) {
				e.Failf("C17", "%s: functions are called while others have taken all of the pool", where)
			}
		} else if !e.Until(d) {
			e.Failf("C17", "%s: waits for a slot of the pool although NonBlocking was given", where)
		}
		release()
	}
	if !e.Until(d) {
		e.Failf(main+" C16 C17", "%s: does not return although every function can finish and the input %s", where, map[bool]string{true: "is idle and the context cancelled", false: "is closed"}[c.NoClose])
		close(stop)
		cancel()
		return false
	}
	<-d
	if n := running.Load(); n != 0 {
		e.Failf(main+" C16", "%s: returned with %d functions running", where, n)
	}
	if cons != nil && c.Nil == 0 && !e.Until(cons) {
		e.Failf("C15 C16", "%s: the output has not been closed although the call has returned", where)
	}
	close(stop)
	for _, w := range ends {
		<-w
	}
	if cons != nil {
		<-cons
	}
	if c.Nil != 0 {
		if begunAny(begun) && c.Nil == 1 {
			e.Failf(main, "%s: functions ran although the input is nil", where)
		}
		switch {
		case c.Modify && err == nil:
			e.Failf("C15", "%s: no error for a nil channel", where)
		case !c.Modify && c.Nil == 1 && err != nil:
			e.Failf("C14", "%s: error %q for a nil input", where, err)
		}
		if c.Modify || c.Nil == 1 {
			e.Label("nil channel")
			return true
		}
	}
	if c.Modify && leftEarly && c.Leave {
		// The consumer is gone; the output must have been closed nevertheless.
		dl := time.NewTimer(time.Second)
	drain:
		for {
			select {
			case res, ok := <-output:
				if !ok {
					closed = true
					break drain
				}
				results = append(results, res)
			case <-dl.C:
				break drain
			}
		}
	}
	if c.Modify && !closed {
		e.Failf("C15 C16", "%s: the output has not been closed although the call has returned", where)
	}
	var calls, errs int
	var is []error
	realErr := false
	for v := range side {
		b := begun[v].Load()
		if b > 1 || int64(side[v]) != b {
			e.Failf(main+" C16", "%s: the function was called %d times for value %d (finished %d times)", where, b, v, side[v])
			break
		}
		calls += int(b)
		if failedErr[v] != nil {
			errs++
			_, l := mkErrSame(x[v].Err, failedErr[v])
			is = append(is, l...)
			if x[v].Err != eCanceled && x[v].Err != eDeadline {
				realErr = true
			}
		}
	}
	cancelled := cancAt.Load() != 0 && ctx.Err() != nil
	stopped := c.Stop && errs > 0
	quiet := !cancelled && !stopped
	if n := notIn.Load(); n != 0 {
		e.Failf("C17", "%s: %d functions ran while nothing was running in the pool", where, n)
	}
	checkSpans(e, where, c.Trace, rec, &badSpan)
	if badCtx.Load() != 0 {
		e.Failf(main+" C16", "%s: a function was given a context that does not derive from the caller's", where)
	}
	if late.Load() != 0 {
		e.Failf("C16", "%s: %d functions started after the operation had been stopped or cancelled", where, late.Load())
	}
	if quiet && calls != c.N {
		e.Failf(main, "%s: the function was called for %d of %d values although nothing stopped the operation", where, calls, c.N)
	}
	if c.Modify {
		got := map[int]int{}
		var gotErr []error
		for _, res := range results {
			if res.Err != nil {
				gotErr = append(gotErr, res.Err)
			} else {
				got[oe.from(res.Value)]++
			}
		}
		for val, n := range got {
			if n > 1 {
				e.Failf("C15", "%s: the result for value %d came %d times", where, val, n)
			}
		}
		okRes := 0
		for v := range side {
			if got[v] > 0 {
				okRes++
				if begun[v].Load() == 0 || failedErr[v] != nil || x[v].Exit {
					e.Failf("C15", "%s: a result for value %d, whose function did not give it", where, v)
				}
			} else if quiet && failedErr[v] == nil && begun[v].Load() == 1 && !x[v].Exit {
				e.Failf("C15", "%s: no result for value %d, whose function succeeded", where, v)
				break
			}
		}
		if okRes != len(got) {
			e.Failf("C15", "%s: results that no function gave: %v", where, got)
		}
		if quiet && len(gotErr) != errs || len(gotErr) > errs {
			e.Failf("C15", "%s: %d functions failed, %d results carry an error", where, errs, len(gotErr))
		}
		used := map[int]bool{}
		for _, ge := range gotErr {
			hit := false
			for v := range failedErr {
				if failedErr[v] != nil && !used[v] && sameErr(failedErr[v], ge) {
					used[v], hit = true, true
					break
				}
			}
			if !hit {
				e.Failf("C15", "%s: a result carries the error %q, which no (further) function gave", where, ge)
				break
			}
		}
	}
	switch {
	case err == nil && errs > 0:
		e.Failf(main+" C16", "%s: returned nil although %d functions failed", where, errs)
	case err == nil && calls != c.N:
		e.Failf(main+" C16", "%s: returned nil although only %d of %d values were processed", where, calls, c.N)
	case err != nil && errs == 0 && !cancelled:
		e.Failf(main+" C17", "%s: returned %q although nothing failed", where, err)
	case err != nil && errs > 0 && quiet:
		for _, y := range is {
			if !errors.Is(err, y) {
				e.Failf(main, "%s: the error does not lead to the error %q of one of the functions", where, y)
				break
			}
		}
	case err != nil && errs > 0 && realErr && stopped && !cancelled:
		ok := false
		for _, y := range is {
			ok = ok || errors.Is(err, y)
		}
		for v := range failedErr {
			if f := failedErr[v]; f != nil && (x[v].Err == eCanceled || x[v].Err == eDeadline) && errors.Is(err, f) {
				ok = true
			}
		}
		// Modify may give up passing on the result of a function that fails once another has failed.
		if !ok {
			e.Failf("C16", "%s: stopped on an error, and the returned error (%q) leads to none of the functions' errors", where, err)
		}
	case err != nil && errs == 0 && cancelled && !errors.Is(err, ctx.Err()):
		e.Failf("C16", "%s: the context was cancelled (%v) and the call returned %q", where, ctx.Err(), err)
	}
	lim := c.Pool.cap()
	if c.Pool.Kind == 0 {
		lim = runtime.NumCPU()
	}
	if lim > 0 && g.peak.Load() > int64(lim) {
		e.Failf("C17", "%s: %d functions ran at once, the pool allows %d", where, g.peak.Load(), lim)
	}
	if c.N >= 2 && (errs > 0 || cancelled || c.Stop || c.Pool.Kind != 0 || c.Senders > 1) {
		e.NonTrivial()
	}
	e.Label(name)
	e.LabelIf(c.Pool.Busy && c.N > 0, "pool taken by others")
	e.LabelIf(c.Elem > 0 && c.N > 0, "one value is nil")
	e.LabelIf(c.Win > 0 && c.N > c.Win, "values that wait for others")
	e.LabelIf(mt.n > 1, "functions wait for each other")
	e.LabelIf(errs > 0, "function failed")
	e.LabelIf(errs > 1, "several functions failed")
	e.LabelIf(stopped, "stopped on error")
	e.LabelIf(cancelled, "cancelled")
	e.LabelIf(cancelled && c.NoClose, "cancelled with an open input")
	e.LabelIf(c.Modify && leftEarly, "consumer left")
	e.LabelIf(c.N > 100, "more than 100 values")
	return true
}

func begunAny(l []engine.Counter) bool {
	for i := range l {
		if l[i].Load() > 0 {
			return true
		}
	}
	return false
}
