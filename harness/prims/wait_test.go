package prims

import (
	"context"
	"errors"
	"runtime"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/prim/wait"
	"github.com/gostdlib/concurrency/zzverif/engine"
	"github.com/gostdlib/concurrency/zzverif/spans"
)

type wFn struct {
	Work int
	Err  int
	// Ctx: 0 the round's live context, 1 a context cancelled before Go, 2 the context that CancelOnErr
	// cancels, 3 a context past its deadline, 4 a context cancelled right after Go
	Ctx  int
	Gate bool // works until the driver lets it go on
	Till bool // works until its context is cancelled (Ctx 2 in a round in which something fails)
	Nest int  // functions started from inside
	Exit bool // ends its goroutine in place of returning
}

type wRound struct {
	Subs    [][]wFn
	Cancel  bool // set CancelOnErr
	Seq     bool // each function ends before the next Go
	WaitCtx bool // Wait gets a cancelled context
	Trace   int  // contexts carry a recording span: 0 none, 1 all, 2 every other function's
}

type wCase struct {
	Pool   poolSpec
	Name   bool
	Rounds []wRound
}

func init() {
	engine.Add(engine.Unit{
		Name:  "wait.group",
		Rule:  "a Group (with or without a pool) used for one to three rounds of Go from one or more goroutines and Wait, with functions that fail, are gated, wait for their context, start others, and with contexts in all states; non-trivial: a round with two or more functions and an error, a skipped function, several submitters or a reused Group",
		Files: []string{"prim/wait/", "goroutines/"},
	}, genWait, normWait, runWait)
}

func genWait(t *rapid.T) wCase {
	c := wCase{Pool: drawPool(t), Name: rapid.Bool().Draw(t, "name")}
	if engine.Focus == "C11" || engine.Focus == "C08" {
		if engine.Chance(t, "bigpool", 3) {
			c.Pool.Size = engine.Size(t, "bigsize", 1, 1100)
		}
	}
	for r, n := 0, engine.Pick(t, "rounds", 1, 1, 2, 3); r < n; r++ {
		var rd wRound
		rd.Cancel = engine.Chance(t, "cancel", 50)
		rd.Seq = engine.Chance(t, "seq", 15)
		rd.WaitCtx = engine.Chance(t, "waitctx", 15)
		if drawTrace(t) {
			rd.Trace = engine.Pick(t, "tracek", 1, 1, 1, 2)
		}
		ns := engine.Pick(t, "subs", 1, 1, 1, 2, 3)
		errp := engine.Pick(t, "errp", 0, 10, 30, 100)
		ctxp := engine.Pick(t, "ctxp", 0, 0, 20, 60)
		gatep := engine.Pick(t, "gatep", 0, 0, 30)
		tillp := engine.Pick(t, "tillp", 0, 0, 40)
		for s := 0; s < ns; s++ {
			var l []wFn
			cnt := engine.Pick(t, "fns", 0, 1, 2, 3, 5, 8, 20)
			if engine.Chance(t, "many", 4) {
				cnt = engine.Size(t, "fnsBig", 10, 1200)
				if engine.Rare(t, "huge?", 20) {
					cnt = engine.Huge(t, "huge", 4200) / ns
				}
			}
			if cnt > 60 {
				w := engine.Work(t, "work")
				ek := engine.Pick(t, "ek", 0, 1, 1, 2, 4, 6, 7, 8)
				every := engine.Pick(t, "every", 1, 2, 7, 100)
				cx := engine.Pick(t, "cx", 0, 2)
				for i := 0; i < cnt; i++ {
					f := wFn{Work: w, Ctx: cx}
					if i%every == every-1 {
						f.Err = ek
					}
					l = append(l, f)
				}
			} else {
				for i := 0; i < cnt; i++ {
					f := wFn{Work: engine.Work(t, "work")}
					if engine.Chance(t, "err", errp) {
						f.Err = engine.Pick(t, "ek", 1, 1, 1, 1, 2, 3, 4, 5, 6, 7, 7, 8)
					}
					if rd.Cancel && rapid.Bool().Draw(t, "c2") {
						f.Ctx = 2
					}
					if engine.Chance(t, "ctx", ctxp) {
						f.Ctx = engine.Pick(t, "ck", 1, 1, 2, 3, 4)
					}
					f.Exit = f.Err == 0 && engine.Chance(t, "exit", 8)
					f.Gate = engine.Chance(t, "gate", gatep)
					f.Till = engine.Chance(t, "till", tillp)
					f.Nest = engine.Pick(t, "nest", 0, 0, 0, 0, 0, 0, 0, 0, 0, 1)
					l = append(l, f)
				}
			}
			rd.Subs = append(rd.Subs, l)
		}
		c.Rounds = append(c.Rounds, rd)
	}
	return c
}

func normWait(c *wCase) {
	c.Pool.norm()
	if len(c.Rounds) > 6 {
		c.Rounds = c.Rounds[:6]
	}
	for r := range c.Rounds {
		rd := &c.Rounds[r]
		engine.Clamp(&rd.Trace, 0, 2)
		fails := false
		for _, l := range rd.Subs {
			for _, f := range l {
				if f.Err != eNil && (f.Ctx == 0 || f.Ctx == 2) && !f.Gate && !f.Till {
					fails = true
				}
			}
		}
		for s := range rd.Subs {
			for i := range rd.Subs[s] {
				f := &rd.Subs[s][i]
				engine.Clamp(&f.Err, 0, maxErr)
				engine.Clamp(&f.Ctx, 0, 4)
				engine.Clamp(&f.Nest, 0, 2)
				f.Exit = f.Exit && f.Err == 0
				if c.Pool.cap() >= 0 { // a blocking submit from inside a full pool may wait for itself
					f.Nest = 0
				}
				// A function may wait for its context only if something is sure to cancel it: a
				// failing function, with room in the pool for it to run.
				if f.Ctx != 2 || !rd.Cancel || !fails || c.Pool.cap() >= 0 || rd.Seq {
					f.Till = false
				}
				if rd.Seq {
					f.Gate = false
				}
			}
		}
		if rd.Seq && len(rd.Subs) > 1 {
			rd.Subs = rd.Subs[:1]
		}
	}
}

type wf struct {
	wFn
	ctx    context.Context
	stop   context.CancelFunc
	gate   chan struct{}
	open   bool
	ran    int // plain
	begun  engine.Counter
	ended  engine.Counter
	bad    engine.Counter
	sent   engine.Counter // Go was called
	err    error
	is     []error
	id     int
	prec   bool // the context was over before Go
	maybe  bool // the context may have been cancelled at any time
	failed engine.Counter
}

// reused names the property that a Group can be used for further rounds.
func reused(round int) string {
	if round > 0 {
		return " C11"
	}
	return ""
}

func runWait(e *engine.Env, c wCase) {
	pool, opts := c.Pool.make()
	g := wait.Group{Pool: pool, PoolOptions: opts}
	if c.Name {
		g.Name = "harness"
	}
	nid := 0
	var recs []*spans.Recorder
	for ri, rd := range c.Rounds {
		cancels := engine.Counter{}
		rec, base := spans.On(context.Background(), rd.Trace == 1)
		recs = append(recs, rec)
		var badSpan engine.Counter
		var under sync.Map // the spans that functions ran under
		cctx, ccancel := context.WithCancel(base)
		if rd.Cancel {
			g.CancelOnErr = func() { cancels.Add(1); ccancel() }
		}
		var fns []*wf
		var lists [][]*wf
		var anyErr, bigAny bool
		for _, l := range rd.Subs {
			var fl []*wf
			for _, f := range l {
				mk := func(f wFn) *wf {
					nid++
					x := &wf{wFn: f, id: nid, gate: make(chan struct{})}
					x.err, x.is = mkErr(f.Err, nid)
					base := base
					switch f.Ctx {
					case 2:
						base = cctx
						x.maybe = rd.Cancel
					case 3:
						x.prec = true
					}
					if rd.Trace == 2 && nid%2 == 0 {
						base = rec.Put(base)
					}
					x.ctx, x.stop = context.WithCancel(engine.WithTag(base, nid))
					switch f.Ctx {
					case 0:
						switch nid % 5 {
						case 0: // one that cannot be cancelled
							x.stop()
							x.ctx, x.stop = engine.WithTag(base, nid), func() {}
						case 1, 3: // one with a deadline
							old := x.stop
							var st context.CancelFunc
							x.ctx, st = context.WithTimeout(x.ctx, 1e6*time.Hour)
							x.stop = func() { st(); old() }
						}
					case 1:
						x.stop()
						x.prec = true
					case 3:
						old := x.stop
						var st context.CancelFunc
						x.ctx, st = context.WithDeadline(x.ctx, time.Now().Add(-time.Second))
						x.stop = func() { st(); old() }
					case 4:
						x.maybe = true
					}
					fns = append(fns, x)
					return x
				}
				x := mk(f)
				fl = append(fl, x)
				for n := 0; n < f.Nest; n++ {
					fl = append(fl, mk(wFn{Work: f.Work, Err: f.Err}))
				}
			}
			lists = append(lists, fl)
		}
		where := engine.S("round %d", ri)
		var start func(x *wf, nested []*wf)
		start = func(x *wf, nested []*wf) {
			x.sent.Add(1)
			g.Go(x.ctx, func(ctx context.Context) error {
				x.begun.Add(1)
				if engine.Tag(ctx) != any(x.id) {
					x.bad.Add(1)
				}
				if s := spans.From(ctx); s != nil && s.Ended() != 0 {
					badSpan.Add(1)
				} else if s != nil && rd.Trace == 1 {
					under.Store(s, true)
				}
				if rd.Trace == 1 {
					inSpan(ctx, rec, &badSpan)
				}
				for _, n := range nested {
					start(n, nil)
				}
				if x.Gate {
					<-x.gate
				}
				if x.Till {
					<-ctx.Done()
				}
				engine.DoWork(x.Work)
				if !engine.CtxOK(ctx, x.ctx) {
					x.bad.Add(1)
				}
				x.ran++
				if x.err != nil {
					x.failed.Add(1)
				}
				x.ended.Add(1)
				if x.Exit {
					runtime.Goexit()
				}
				return x.err
			})
			if x.Ctx == 4 {
				x.stop()
			}
		}
		var subs []<-chan struct{}
		for _, fl := range lists {
			subs = append(subs, engine.Go(func() {
				for i := 0; i < len(fl); {
					n := min(fl[i].Nest, len(fl)-i-1)
					start(fl[i], fl[i+1:i+1+n])
					if rd.Seq {
						e.Settle()
					}
					i += 1 + n
				}
			}))
		}
		closedGates := func() (l []*wf) {
			for _, x := range fns {
				if x.Gate && !x.open && (!x.prec || x.begun.Load() > 0) {
					l = append(l, x)
				}
			}
			return
		}
		release := func(x *wf) { x.open = true; close(x.gate) }
		look := func(where string) {
			e.Settle()
			var exec, out, failed, unfinished, waiting int
			for _, x := range fns {
				b, d := x.begun.Load(), x.ended.Load()
				if b > d {
					exec++
				}
				if x.sent.Load() > 0 && d == 0 {
					if !x.prec {
						out++
						unfinished++
					} else if c.Pool.Kind != 0 {
						waiting++ // may still have to wait for the pool to be skipped
					}
				}
				if x.prec && b > 0 {
					e.Failf("C08", "%s: a function ran although its context was over before Go", where)
				}
				if x.failed.Load() > 0 {
					failed++
				}
			}
			if n := c.Pool.cap(); n >= 0 && exec >= n {
				out += waiting
			}
			r := g.Running()
			if r < exec || r > out {
				e.Failf("C11", "%s: Running() = %d with %d functions executing and %d started and unfinished", where, r, exec, out)
			}
			if c.Pool.Kind == 0 && r != exec {
				e.Failf("C11", "%s: Running() = %d with %d functions executing and no pool", where, r, exec)
			}
			if n := cancels.Load(); rd.Cancel && failed == 0 && n > 0 && unfinished > 0 {
				e.Failf("C10"+reused(ri), "%s: CancelOnErr was called although no function has failed and %d have not finished", where, unfinished)
			} else if rd.Cancel && failed > 0 && n == 0 {
				e.Failf("C10"+reused(ri), "%s: a function has failed and CancelOnErr has not been called", where)
			}
		}
		if len(closedGates()) > 0 {
			look(where + " while submitting")
		}
		// Let gated functions go until every Go call has returned.
		for {
			e.Settle()
			ok := true
			for _, s := range subs {
				ok = ok && engine.Done(s)
			}
			if ok {
				break
			}
			l := closedGates()
			if len(l) == 0 {
				if rd.Seq && !e.Failed() { // a sequential round takes its time
					all := true
					for _, s := range subs {
						<-s
						all = all && engine.Done(s)
					}
					if all {
						break
					}
				}
				e.Failf("C08"+reused(ri), "%s: Go calls do not return although every function can finish", where)
				return
			}
			release(l[0])
		}
		for _, s := range subs {
			<-s
		}
		if len(closedGates()) > 0 {
			look(where + " before Wait")
		}
		wctx := context.Background()
		if rd.WaitCtx {
			w, stop := context.WithCancel(wctx)
			stop()
			wctx = w
		}
		var err error
		w := engine.Go(func() { err = g.Wait(wctx) })
		for {
			e.Settle()
			l := closedGates()
			// Those that are skipped need no release.
			n := 0
			for _, x := range l {
				if !x.maybe {
					n++
				}
			}
			if engine.Done(w) {
				if n > 0 {
					e.Failf("C08"+reused(ri), "%s: Wait returned while %d functions had not finished", where, n)
				}
				for _, x := range l {
					release(x)
				}
				break
			}
			if len(l) == 0 {
				break
			}
			look(where + " in Wait")
			release(l[len(l)-1])
		}
		if !e.Until(w) {
			e.Failf("C08 C10"+reused(ri), "%s: Wait does not return although every function can finish", where)
			return
		}
		<-w
		// Everything below is known to be over.
		var must []error
		var ctxSeen, ctxWrapped, nerr, skipped int
		var canc, dead bool
		for _, x := range fns {
			b := x.begun.Load()
			switch {
			case b > 1 || int64(x.ran) != b || x.ended.Load() != b:
				e.Failf("C08"+reused(ri), "%s: after Wait a function had been started %d times and finished %d times", where, b, x.ran)
			case b == 1 && x.prec:
				e.Failf("C08", "%s: a function ran although its context was over before Go", where)
			case b == 0 && !x.prec && !x.maybe && x.sent.Load() > 0:
				e.Failf("C08"+reused(ri), "%s: a function whose context was live did not run before Wait returned", where)
			case b == 0 && x.sent.Load() > 0:
				skipped++
				if x.Ctx == 3 {
					dead = true
				} else {
					canc = true
				}
				if x.maybe && x.Ctx == 2 && cctx.Err() == nil {
					e.Failf("C08"+reused(ri), "%s: a function was skipped although its context was live", where)
				}
			case x.sent.Load() == 0:
				// nested in a function that was skipped
			}
			if x.bad.Load() != 0 {
				e.Failf("C08"+reused(ri), "%s: a function was given a context other than the one passed to Go", where)
			}
			if b == 1 && x.err != nil {
				anyErr = true
				nerr++
				must = append(must, x.is...)
				switch x.Err {
				case eCanceled:
					ctxSeen++
					canc = true
				case eDeadline:
					ctxSeen++
					dead = true
				case eWrapCtx:
					ctxWrapped++
					canc = true
				}
			}
			x.stop()
		}
		ctxSeen += skipped
		if len(fns) > 60 {
			bigAny = true
		}
		switch {
		case err == nil && (anyErr || skipped > 0):
			e.Failf("C09"+reused(ri), "%s: Wait returned nil although %d functions failed and %d were skipped for their context", where, nerr, skipped)
		case err != nil && !anyErr && skipped == 0:
			e.Failf("C09 C11", "%s: Wait returned %q although no function failed", where, err)
		case err != nil:
			if bigAny && len(must) > 400 { // errors.Is walks the whole chain
				must = append(must[:200:200], must[len(must)-200:]...)
			}
			for _, x := range must {
				if !errors.Is(err, x) {
					e.Failf("C09"+reused(ri), "%s: the error of Wait (%d functions failed) does not lead to the returned error %q", where, nerr, x)
					break
				}
			}
			for _, x := range fns {
				if x.Err == eUnique && x.begun.Load() == 1 {
					var m *myErr
					if !errors.As(err, &m) {
						e.Failf("C09", "%s: errors.As does not find an error of the type returned", where)
					}
					break
				}
			}
			if errors.Is(err, context.Canceled) && !canc {
				e.Failf("C09 C11", "%s: the error of Wait leads to context.Canceled, which nothing gave", where)
			}
			if errors.Is(err, context.DeadlineExceeded) && !dead {
				e.Failf("C09 C11", "%s: the error of Wait leads to context.DeadlineExceeded, which nothing gave", where)
			}
			if errors.Is(err, errShared) && !contains(must, errShared) {
				e.Failf("C09 C11", "%s: the error of Wait leads to an error no function of this round returned", where)
			}
			if len(must) == 0 && !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {
				e.Failf("C09", "%s: only context errors were given, and the error of Wait (%q) is none", where, err)
			}
			var m *myErr
			if errors.As(err, &m) {
				found := false
				for _, x := range fns {
					if (m.id == x.id || m.id == -x.id-1) && x.begun.Load() == 1 {
						found = true
					}
				}
				if !found {
					e.Failf("C09 C11", "%s: the error of Wait leads to %q, which no function of this round returned", where, m)
				}
			}
			if rd.Seq && ctxWrapped == 0 {
				checkSeq(e, where, err, fns)
			}
		}
		checkSpans(e, where, rd.Trace != 0, rec, &badSpan)
		n := 0
		under.Range(func(any, any) bool {
			if n++; n > 1 {
				e.Failf("C30", "%s: the functions of one round ran under several spans", where)
			}
			return true
		})
		if r := g.Running(); r != 0 {
			e.Failf("C11", "%s: Running() = %d after Wait", where, r)
		}
		if rd.Cancel {
			if cancels.Load() == 0 {
				e.Failf("C10"+reused(ri), "%s: CancelOnErr has not been called by the end of Wait", where)
			}
			if g.CancelOnErr != nil {
				e.Failf("C10 C11", "%s: CancelOnErr is still set after Wait", where)
			}
			e.LabelIf(anyErr, "cancelled by an error")
		}
		ccancel()
		e.LabelIf(skipped > 0, "skipped function")
		e.LabelIf(nerr > 1, "several errors")
		e.LabelIf(bigAny, "more than 60 functions")
		if len(fns) >= 2 && (anyErr || skipped > 0 || len(rd.Subs) > 1 || ri > 0) {
			e.NonTrivial()
		}
	}
	for ri, rec := range recs {
		if s := rec.Final(); s != "" {
			e.Failf("C30", "round %d, seen after the last one: %s", ri, s)
		}
	}
	if pool != nil {
		cl := engine.Go(pool.Close)
		if !e.Until(cl) {
			e.Failf("C08 C11", "the pool cannot be closed after the last Wait")
		}
	}
	e.Label(c.Pool.String())
}

func contains(l []error, x error) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// checkSeq checks the rule for context errors in a round whose functions ran one after another: such an
// error counts only if it is the first.
func checkSeq(e *engine.Env, where string, err error, fns []*wf) {
	var first error
	for _, x := range fns {
		if x.sent.Load() == 0 {
			continue
		}
		if x.begun.Load() == 0 {
			first = context.Canceled
			if x.Ctx == 3 {
				first = context.DeadlineExceeded
			}
			if x.Ctx == 4 {
				return // may have been skipped or not; either order is fine
			}
		} else if x.err != nil {
			first = x.err
		}
		if first != nil {
			break
		}
	}
	for _, x := range fns {
		if x.Nest > 0 {
			return
		}
	}
	if first == nil {
		return
	}
	for _, ce := range []error{context.Canceled, context.DeadlineExceeded} {
		if first == ce {
			if !errors.Is(err, ce) {
				e.Failf("C09", "%s: the first error was %q and the error of Wait (%q) does not lead to it", where, ce, err)
			}
		} else if errors.Is(err, ce) {
			e.Failf("C09", "%s: the error of Wait leads to %q, which was not the first error", where, ce)
		}
	}
	e.Label("order of errors known")
}
