package prims

import (
	"context"
	"runtime"

	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"
	"github.com/gostdlib/concurrency/zzverif/engine"
	"github.com/gostdlib/concurrency/zzverif/spans"
)

// rcCase is a call whose pool refuses the functions, as an option is meant for the other kind of pool.
type rcCase struct {
	Op     int // 0 wait.Group, 1 slices.Access, 2 chans.Access, 3 chans.Modify
	Pooled bool
	Size   int
	Opts   []int // 0 NonBlocking and 1 Caller of the pool's kind, 2 and 3 of the other kind
	N      int   // functions, elements or values
	Subs   int   // goroutines that call Go
	Stop   bool  // stop on errors, or CancelOnErr
	Over   bool  // the context is over before the call
	Busy   bool  // the pool is taken by others
	Buf    int
	Early  int // rounds of the group before the refused one, with options that fit
	Late   int // and after it
	Trace  bool
}

func init() {
	engine.Add(engine.Unit{
		Name:  "refused",
		Rule:  "wait.Group, slices and chans with options for the other kind of pool than the one they are given, so that the pool refuses every function; non-trivial: at least two functions",
		Files: []string{"prim/", "goroutines/"},
	}, genRefused, normRefused, runRefused)
}

func genRefused(t *rapid.T) rcCase {
	c := rcCase{
		Op:     rapid.IntRange(0, 3).Draw(t, "op"),
		Pooled: rapid.Bool().Draw(t, "pooled"),
		Size:   engine.Pick(t, "size", 1, 1, 2, 3, 8),
		N:      engine.Size(t, "n", 0, 300),
		Subs:   engine.Pick(t, "subs", 1, 1, 1, 2, 3),
		Stop:   engine.Chance(t, "stop", 40),
		Over:   engine.Chance(t, "over", 10),
		Busy:   engine.Chance(t, "busy", 20),
		Buf:    engine.Pick(t, "buf", 0, 0, 1, 5),
		Early:  engine.Pick(t, "early", 0, 0, 1),
		Late:   engine.Pick(t, "late", 0, 1, 1, 2),
		Trace:  drawTrace(t),
	}
	for i, n := 0, engine.Pick(t, "opts", 1, 1, 2, 3); i < n; i++ {
		c.Opts = append(c.Opts, rapid.IntRange(0, 3).Draw(t, "opt"))
	}
	return c
}

func normRefused(c *rcCase) {
	engine.Clamp(&c.Op, 0, 3)
	engine.Clamp(&c.Size, 1, 100)
	engine.Clamp(&c.N, 0, 2000)
	engine.Clamp(&c.Subs, 1, 4)
	engine.Clamp(&c.Buf, 0, 100)
	engine.Clamp(&c.Early, 0, 2)
	engine.Clamp(&c.Late, 0, 2)
	bad := false
	for i := range c.Opts {
		engine.Clamp(&c.Opts[i], 0, 3)
		bad = bad || c.Opts[i] >= 2
	}
	if !bad {
		c.Opts = append(c.Opts, 2)
	}
}

func (c rcCase) opts() (bad, good []goroutines.SubmitOption) {
	mk := func(pool bool, o int) goroutines.SubmitOption {
		switch {
		case pool && o == 0:
			return pooled.NonBlocking()
		case pool:
			return pooled.Caller("harness")
		case o == 0:
			return limited.NonBlocking()
		}
		return limited.Caller("harness")
	}
	for _, o := range c.Opts {
		if o >= 2 {
			bad = append(bad, mk(!c.Pooled, o-2))
		} else {
			bad = append(bad, mk(c.Pooled, o))
			good = append(good, mk(c.Pooled, o))
		}
	}
	return
}

func runRefused(e *engine.Env, c rcCase) {
	p := poolSpec{Kind: 1, Size: c.Size, Busy: c.Busy}
	if c.Pooled {
		p.Kind = 2
	}
	pool, _ := p.make()
	free := p.occupy(pool)
	defer free()
	bad, good := c.opts()
	rec, base := spans.On(context.Background(), c.Trace)
	ctx, stop := context.WithCancel(base)
	defer stop()
	if c.Over {
		stop()
	}
	var ran engine.Counter
	var err error
	var done <-chan struct{}
	group := &wait.Group{Pool: pool}
	round := func(where string) { // a round that is not refused
		group.PoolOptions = good
		var n engine.Counter
		for i := 0; i < 3; i++ {
			group.Go(context.Background(), func(context.Context) error { n.Add(1); return nil })
		}
		if err := group.Wait(context.Background()); err != nil || n.Load() != 3 {
			e.Failf("C35", "%s: a round of 3 functions ran %d and ended with %v", where, n.Load(), err)
		}
	}
	if c.Op == 0 && !c.Busy {
		for i := 0; i < c.Early; i++ {
			round("before")
		}
	}
	left := 0
	switch c.Op {
	case 0:
		group.PoolOptions = bad
		if c.Stop {
			group.CancelOnErr = func() {}
		}
		var subs []<-chan struct{}
		for s := 0; s < c.Subs; s++ {
			subs = append(subs, engine.Go(func() {
				for i := s; i < c.N; i += c.Subs {
					group.Go(ctx, func(context.Context) error { ran.Add(1); return nil })
				}
			}))
		}
		for _, s := range subs {
			if !e.Until(s) {
				e.Failf("C35", "Go does not return when the pool refuses the function")
				return
			}
		}
		if r := group.Running(); r != 0 && c.N == 0 || r < 0 || r > c.N {
			e.Failf("C35", "Running() = %d with no function executing", r)
		}
		done = engine.Go(func() { err = group.Wait(context.Background()) })
	case 1:
		s := make([]int, c.N)
		o := []slices.SliceOption{slices.WithPoolOptions(pool, bad...)}
		if c.Stop {
			o = append(o, slices.WithStopOnErr())
		}
		done = engine.Go(func() {
			err = slices.Access(ctx, s, func(context.Context, int, int, slices.Modifier[int]) error { ran.Add(1); return nil }, o...)
		})
	default:
		in := make(chan int, c.Buf)
		fed := make(chan struct{})
		quit := make(chan struct{})
		go func() {
			defer close(fed)
			defer close(in)
			for i := 0; i < c.N; i++ {
				select {
				case in <- i:
				case <-quit:
					return
				}
			}
		}()
		defer func() { close(quit); <-fed }()
		o := []chans.Option{chans.WithPoolOptions(pool, bad...)}
		if c.Stop {
			o = append(o, chans.WithStopOnErr())
		}
		if c.Op == 2 {
			done = engine.Go(func() {
				err = chans.Access(ctx, in, func(context.Context, int) error { ran.Add(1); return nil }, o...)
			})
			break
		}
		out := make(chan chans.StreamResult[int], c.Buf)
		mod := engine.Go(func() {
			err = chans.Modify(ctx, in, out, func(_ context.Context, i int) (int, error) { ran.Add(1); return i, nil }, o...)
		})
		done = engine.Go(func() {
			for range out {
				left++
			}
			<-mod
		})
	}
	what := [...]string{"Wait", "slices.Access", "chans.Access", "chans.Modify"}[c.Op]
	if !e.Until(done) {
		e.Failf("C35", "%s does not return when the pool refuses the functions", what)
		return
	}
	<-done
	if n := ran.Load(); n != 0 {
		e.Failf("C35", "%d functions ran, of which the pool had refused all", n)
	}
	if left != 0 {
		e.Failf("C35", "%d results of functions that were refused", left)
	}
	if err == nil && c.N > 0 {
		e.Failf("C35", "%s returned nil although the pool refused all %d functions", what, c.N)
	}
	if err != nil && c.N == 0 && !c.Over {
		e.Failf("C35", "%s returned %q although there was nothing to do", what, err)
	}
	if s := rec.Final(); c.Trace && s != "" {
		e.Failf("C35", "%s", s)
	}
	if c.Op == 0 {
		if r := group.Running(); r != 0 {
			e.Failf("C35", "Running() = %d after Wait", r)
		}
	}
	free()
	runtime.Gosched()
	if c.Op == 0 {
		for i := 0; i < c.Late; i++ {
			round("after")
		}
	}
	var n engine.Counter
	for i := 0; i < c.Size; i++ {
		if err := pool.Submit(context.Background(), func(context.Context) { n.Add(1) }); err != nil {
			e.Failf("C35", "the pool cannot be used afterwards: %v", err)
		}
	}
	cl := engine.Go(pool.Close)
	if !e.Until(cl) {
		e.Failf("C35", "the pool cannot be closed afterwards")
		return
	}
	if int(n.Load()) != c.Size {
		e.Failf("C35", "the pool ran %d of %d jobs afterwards", n.Load(), c.Size)
	}
	e.Label(what)
	if c.N >= 2 {
		e.NonTrivial()
	}
}
