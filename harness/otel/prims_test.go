package otel

import (
	"context"
	"errors"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"
	"github.com/gostdlib/concurrency/zzverif/engine"
	"github.com/gostdlib/concurrency/zzverif/spans"
)

type wRound struct {
	Trace  int // 0 one of its own, 1 none, 2 that of the previous round
	Name   int
	Pool   int  // 0 none, 1 limited, 2 pooled
	Keep   bool // the name is that of the previous round, which is not set again
	Cancel bool
	Fns    []wFn
	Pause  int
}

type wFn struct {
	Err  int // 0 none, 1 an error, 2 context.Canceled, 3 shared error
	Work int
	Sub  bool // the function has an event of its own
}

type aOp struct {
	What   int // 0 slices.Access, 1 chans.Access, 2 chans.Modify, 3 Modify with a nil input, 4 Modify with a nil output
	N      int
	Errs   []int // elements that fail
	Stop   bool
	Cancel int // -1 never, else after that many elements
	Pool   int
	Trace  bool
	Work   int
}

type primsCase struct {
	Rounds []wRound
	Ops    []aOp
}

var groupNames = []string{"", "work", "a b", "x(y)"}

func init() {
	engine.Add(engine.Unit{
		Name: "otel.prims",
		Rule: "rounds of a reused wait.Group, and calls of slices.Access, chans.Access and chans.Modify, each with a recording span of its own or none, with failures, cancellations and pools; " +
			"what the spans have recorded is compared with what happened; non-trivial: a traced round or call that returned an error and one that returned none, or more than one traced round",
		Files: []string{"prim/"},
	}, func(t *rapid.T) primsCase {
		var c primsCase
		for i, n := 0, engine.Pick(t, "rounds", 0, 1, 1, 2, 3, 4); i < n; i++ {
			r := wRound{
				Trace:  engine.Pick(t, "trace", 0, 0, 0, 1, 2),
				Name:   rapid.IntRange(0, len(groupNames)-1).Draw(t, "name"),
				Pool:   rapid.IntRange(0, 2).Draw(t, "pool"),
				Keep:   engine.Chance(t, "keep", 30),
				Cancel: engine.Chance(t, "cancel", 40),
				Pause:  engine.Work(t, "pause"),
			}
			for k, m := 0, engine.Size(t, "fns", 1, 20); k < m; k++ {
				r.Fns = append(r.Fns, wFn{
					Err:  engine.Pick(t, "err", 0, 0, 0, 0, 1, 2, 3),
					Work: engine.Work(t, "w"),
					Sub:  engine.Chance(t, "sub", 20),
				})
			}
			if engine.Chance(t, "fine", 30) {
				for k := range r.Fns {
					r.Fns[k].Err = 0
				}
			}
			c.Rounds = append(c.Rounds, r)
		}
		for i, n := 0, engine.Pick(t, "ops", 0, 1, 2, 3); i < n; i++ {
			o := aOp{
				What:   engine.Pick(t, "what", 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 4),
				N:      engine.Size(t, "n", 0, 25),
				Stop:   engine.Chance(t, "stop", 30),
				Cancel: engine.Pick(t, "cancel", -1, -1, -1, 0, 1, 3),
				Pool:   rapid.IntRange(0, 2).Draw(t, "opool"),
				Trace:  engine.Chance(t, "otrace", 85),
				Work:   engine.Work(t, "ow"),
			}
			for k, m := 0, engine.Pick(t, "errs", 0, 0, 1, 1, 2, 5); k < m; k++ {
				o.Errs = append(o.Errs, rapid.IntRange(0, 25).Draw(t, "at"))
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}, func(c *primsCase) {
		if len(c.Rounds) > 6 {
			c.Rounds = c.Rounds[:6]
		}
		for i := range c.Rounds {
			r := &c.Rounds[i]
			engine.Clamp(&r.Trace, 0, 2)
			engine.Clamp(&r.Name, 0, len(groupNames)-1)
			engine.Clamp(&r.Pool, 0, 2)
			engine.Clamp(&r.Pause, 0, 7)
			if len(r.Fns) > 40 {
				r.Fns = r.Fns[:40]
			}
			if len(r.Fns) == 0 {
				r.Fns = []wFn{{}}
			}
			for k := range r.Fns {
				engine.Clamp(&r.Fns[k].Err, 0, 3)
				engine.Clamp(&r.Fns[k].Work, 0, 7)
			}
		}
		if len(c.Ops) > 5 {
			c.Ops = c.Ops[:5]
		}
		for i := range c.Ops {
			o := &c.Ops[i]
			engine.Clamp(&o.What, 0, 4)
			engine.Clamp(&o.N, 0, 50)
			engine.Clamp(&o.Cancel, -1, 50)
			engine.Clamp(&o.Pool, 0, 2)
			engine.Clamp(&o.Work, 0, 7)
		}
	}, runPrims)
}

var errShared = errors.New("made up: a shared error")

func mkPool(kind, n int) goroutines.Pool {
	switch kind {
	case 1:
		p, _ := limited.New("", n)
		return p
	case 2:
		p, _ := pooled.New("", n)
		return p
	}
	return nil
}

// stamp reads a time in nanoseconds, in whatever way it was recorded.
func stamp(v any) (time.Time, bool) {
	switch v := v.(type) {
	case int64:
		return time.Unix(0, v), true
	case string:
		for _, f := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999 -0700 MST"} {
			if t, err := time.Parse(f, v); err == nil {
				return t, true
			}
		}
	}
	return time.Time{}, false
}

// between reports whether v is a time in [a, b].
func between(v any, a, b time.Time) bool {
	t, ok := stamp(v)
	return ok && !t.Before(a.Truncate(1)) && !t.After(b)
}

func elapsed(v any) (time.Duration, bool) {
	s, _ := v.(string)
	d, err := time.ParseDuration(s)
	return d, err == nil
}

func runPrims(e *engine.Env, c primsCase) {
	rec, base := spans.New(context.Background())
	var wg wait.Group
	traced, failed, fine := 0, 0, 0
	var last *spans.Span
	var lastCtx context.Context
	var open []*spans.Span
	name := ""
	for i, r := range c.Rounds {
		where := engine.S("round %d", i)
		ctx, sp := context.Background(), (*spans.Span)(nil)
		switch {
		case r.Trace == 0 || r.Trace == 2 && last == nil:
			ctx, sp = rec.Root.Child(base, where)
			open = append(open, sp)
		case r.Trace == 2:
			ctx, sp = lastCtx, last
		}
		before, had := 0, 0
		if sp != nil {
			before, had = len(sp.Children()), len(sp.Events())
			last, lastCtx = sp, ctx
		}
		nspans := len(rec.All())
		pool := mkPool(r.Pool, 2)
		wg.Pool = pool
		if i == 0 || !r.Keep {
			wg.Name, name = groupNames[r.Name], groupNames[r.Name]
		}
		cctx := ctx
		if r.Cancel {
			var cancel context.CancelFunc
			cctx, cancel = context.WithCancel(ctx)
			defer cancel()
			wg.CancelOnErr = cancel
		}
		var subs engine.Counter
		t0 := time.Now()
		for k, f := range r.Fns {
			wg.Go(cctx, func(ctx context.Context) error {
				if f.Sub {
					if s := spans.From(ctx); s != nil {
						s.AddEvent("harness")
						subs.Add(1)
					}
				}
				engine.DoWork(f.Work)
				switch f.Err {
				case 1:
					return errors.New(engine.S("made up: function %d", k))
				case 2:
					return context.Canceled
				case 3:
					return errShared
				}
				return nil
			})
		}
		engine.DoWork(r.Pause)
		var err error
		t1 := time.Now()
		d := engine.Go(func() { err = wg.Wait(ctx) })
		if !e.Until(d) {
			e.Failf("C37", "%s: Wait does not return", where)
			return
		}
		t2 := time.Now()
		if pool != nil {
			pool.Close()
		}
		if sp == nil {
			if n := len(rec.All()); n != nspans {
				e.Failf("C37 C30", "%s: no span was given, and %d were started", where, n-nspans)
			}
			continue
		}
		traced++
		if err != nil {
			failed++
		} else {
			fine++
		}
		kids := sp.Children()[before:]
		if len(kids) != 1 {
			e.Failf("C37", "%s: the group has %d spans under that of its caller", where, len(kids))
			continue
		}
		g := kids[0]
		if name != "" && !strings.Contains(g.Name, name) {
			e.Failf("C37", "%s: the span of the group %q is named %q", where, name, g.Name)
		}
		checkErrs(e, "C37", where, g, err)
		checkErrs(e, "C37", where+", the caller's span", sp, nil)
		if n := len(sp.Events()) - had; n != 0 {
			e.Failf("C37", "%s: %d events are on the caller's span, which does not belong to the group", where, n)
		}
		var begun, waits, ends, starts int
		for _, ev := range g.Events() {
			if ev.Name == "harness" || isSubmit(ev) || isBlock(ev) { // Of a function, or of the pool.
				continue
			}
			if s, ok := ev.Attr["name"]; ok && name != "" && s != name {
				e.Failf("C37", "%s: an event of the group %q names it %q", where, name, s)
			}
			switch {
			case ev.Name == "Go":
				starts++
				if !between(ev.Attr["start"], t0, t1) {
					e.Failf("C37", "%s: a function was started at %v, says its event, and it was from %v to %v", where, ev.Attr["start"], t0, t1)
				}
			case ev.Attr["total goroutines"] != nil:
				waits++
				if n := ev.Attr["total goroutines"]; n != int64(len(r.Fns)) {
					e.Failf("C37", "%s: the event of Wait says %v functions, and it was %d", where, n, len(r.Fns))
				}
				if v := ev.Attr["cancelOnErr"]; v != r.Cancel {
					e.Failf("C37", "%s: the event of Wait says cancelOnErr=%v", where, v)
				}
				if v := ev.Attr["using pool"]; v != (r.Pool != 0) {
					e.Failf("C37", "%s: the event of Wait says that a pool is used: %v", where, v)
				}
				if begun == 0 || starts != len(r.Fns) || ends > 0 {
					e.Failf("C37", "%s: the event of Wait is out of place", where)
				}
				if !between(ev.Attr["start:"], t1, t2) || e.Still() && !between(ev.Attr["start:"], t1, t1) {
					e.Failf("C37", "%s: Wait was called at %v, says its event, and it was from %v to %v", where, ev.Attr["start:"], t1, t2)
				}
			case ev.Attr["elapsed_ns"] != nil:
				ends++
				d, ok := elapsed(ev.Attr["elapsed_ns"])
				if !ok || d < 0 || d > t2.Sub(t1) || e.Still() && d != t2.Sub(t1) {
					e.Failf("C37", "%s: Wait took %v, says its event, and it was %v", where, ev.Attr["elapsed_ns"], t2.Sub(t1))
				}
				if !between(ev.Attr["end"], t1, t2) || e.Still() && !between(ev.Attr["end"], t2, t2) {
					e.Failf("C37", "%s: Wait ended at %v, says its event, and it was %v", where, ev.Attr["end"], t2)
				}
			case ev.Attr["start"] != nil:
				begun++
				if starts > 0 || !between(ev.Attr["start"], t0, t1) {
					e.Failf("C37", "%s: the round began at %v, says its event, and it was from %v to %v", where, ev.Attr["start"], t0, t1)
				}
			}
		}
		if begun != 1 || waits != 1 || ends < 1 || starts != len(r.Fns) {
			e.Failf("C37", "%s: there are %d events for its beginning, %d for %d functions, %d for the call of Wait and %d for its end", where, begun, starts, len(r.Fns), waits, ends)
		}
		if g.Ended() != 1 {
			e.Failf("C37 C30", "%s: after Wait, the span of the group was ended %d times", where, g.Ended())
		}
	}

	for i, o := range c.Ops {
		where := engine.S("call %d", i)
		ctx, sp := context.Background(), (*spans.Span)(nil)
		if o.Trace {
			ctx, sp = rec.Root.Child(base, where)
			open = append(open, sp)
		}
		cctx, cancel := context.WithCancel(ctx)
		defer cancel()
		nspans := len(rec.All())
		bad := map[int]error{}
		for _, k := range o.Errs {
			bad[k] = errors.New(engine.S("made up: element %d", k))
		}
		var mu sync.Mutex
		seen := 0
		if o.Cancel == 0 {
			cancel()
		}
		fn := func(k int) error {
			engine.DoWork(o.Work)
			mu.Lock()
			seen++
			if seen == o.Cancel {
				cancel()
			}
			mu.Unlock()
			return bad[k]
		}
		pool := mkPool(o.Pool, 2)
		in := make(chan int, o.N)
		var l []int
		for k := 0; k < o.N; k++ {
			in <- k
			l = append(l, k)
		}
		close(in)
		var err error
		d := engine.Go(func() {
			var so []slices.SliceOption
			var co []chans.Option
			if pool != nil {
				so, co = append(so, slices.WithPoolOptions(pool)), append(co, chans.WithPoolOptions(pool))
			}
			if o.Stop {
				so, co = append(so, slices.WithStopOnErr()), append(co, chans.WithStopOnErr())
			}
			out := make(chan chans.StreamResult[int], o.N+1)
			mod := func(_ context.Context, v int) (int, error) { return v, fn(v) }
			switch o.What {
			case 0:
				err = slices.Access(cctx, l, func(_ context.Context, k int, _ int, _ slices.Modifier[int]) error { return fn(k) }, so...)
			case 1:
				err = chans.Access(cctx, in, func(_ context.Context, v int) error { return fn(v) }, co...)
			case 2:
				err = chans.Modify(cctx, in, out, mod, co...)
			case 3:
				err = chans.Modify(cctx, nil, out, mod, co...)
			case 4:
				err = chans.Modify(cctx, in, nil, mod, co...)
			}
		})
		if !e.Until(d) {
			e.Failf("C37", "%s does not return", where)
			return
		}
		if pool != nil {
			pool.Close()
		}
		if sp == nil {
			if n := len(rec.All()); n != nspans {
				e.Failf("C37 C30", "%s: no span was given, and %d were started", where, n-nspans)
			}
			continue
		}
		traced++
		if err != nil {
			failed++
		} else {
			fine++
		}
		checkErrs(e, "C37", where, sp, err)
	}
	for _, sp := range open {
		sp.End()
	}
	if n := len(rec.Root.Events()) + len(rec.Root.Errors()); n > 0 {
		e.Failf("C37", "%d events or errors are on a span that nothing was called with", n)
	}
	if s := rec.Final(); s != "" {
		e.Failf("C37 C30", "%s", s)
	}
	e.LabelIf(failed > 0, "returned an error")
	e.LabelIf(fine > 0, "returned no error")
	e.LabelIf(len(c.Rounds) > 1, "reused")
	if failed > 0 && fine > 0 || traced > 1 {
		e.NonTrivial()
	}
}
