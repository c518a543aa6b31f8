// Package otel checks what the library writes on OpenTelemetry spans.
package otel

import (
	"context"
	"errors"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/zzverif/engine"
	"github.com/gostdlib/concurrency/zzverif/spans"
)

func TestZZ(t *testing.T) { engine.Main(t) }

type pOp struct {
	Span   int // 0 one of its own, 1 that of the goroutine, 2 none
	NB     bool
	Caller int // 0 not given, else an index
	Bad    int // 0 fine, 1 a nil job, 2 and 3 an option of the other kind of pool, first or last
	Via    int // which function calls Submit
	Work   int
	Pause  int
}

type pCase struct {
	Kind int // 0 limited, 1 pooled
	N    int
	Name int
	Free int // jobs, one after another, while there is room
	Full bool
	Ops  [][]pOp
}

var poolNames = []string{"", "alpha", "a.b", "the.name.of.a.pool"}
var callers = []string{"", "me", "pkg.Func", "-", "another.caller"}

func init() {
	engine.Add(engine.Unit{
		Name: "otel.pools",
		Rule: "jobs submitted by one or several goroutines with a recording span of their own, a shared one or none, while the pool has room, is full, or is contended, some of them refused; " +
			"what the spans have recorded is compared with what happened; non-trivial: a span recorded an accepted job, and at least two of: a refusal, a wait, a job that does not block, a given caller",
		Files: []string{"goroutines/"},
	}, func(t *rapid.T) pCase {
		c := pCase{
			Kind: rapid.IntRange(0, 1).Draw(t, "kind"),
			N:    engine.Pick(t, "n", 1, 1, 2, 3, 5, 8),
			Name: rapid.IntRange(0, len(poolNames)-1).Draw(t, "name"),
			Free: rapid.IntRange(0, 4).Draw(t, "free"),
			Full: engine.Chance(t, "full", 50),
		}
		ng := engine.Pick(t, "ng", 1, 1, 2, 3, 5)
		for g := 0; g < ng; g++ {
			var l []pOp
			for i, n := 0, engine.Size(t, "ops", 1, 14); i < n; i++ {
				l = append(l, pOp{
					Span:   engine.Pick(t, "span", 0, 0, 0, 1, 1, 2),
					NB:     engine.Chance(t, "nb", 30),
					Caller: engine.Pick(t, "caller", 0, 0, 1, 2, 3, 4),
					Bad:    engine.Pick(t, "bad", 0, 0, 0, 0, 0, 1, 2, 3),
					Via:    rapid.IntRange(0, len(vias)-1).Draw(t, "via"),
					Work:   engine.Work(t, "w"),
					Pause:  engine.Pick(t, "pause", 0, 0, 0, 1, 4, 6),
				})
			}
			c.Ops = append(c.Ops, l)
		}
		return c
	}, func(c *pCase) {
		engine.Clamp(&c.Kind, 0, 1)
		engine.Clamp(&c.N, 1, 16)
		engine.Clamp(&c.Name, 0, len(poolNames)-1)
		engine.Clamp(&c.Free, 0, 8)
		if len(c.Ops) > 8 {
			c.Ops = c.Ops[:8]
		}
		for g := range c.Ops {
			if len(c.Ops[g]) > 30 {
				c.Ops[g] = c.Ops[g][:30]
			}
			for i := range c.Ops[g] {
				o := &c.Ops[g][i]
				engine.Clamp(&o.Span, 0, 2)
				engine.Clamp(&o.Caller, 0, len(callers)-1)
				engine.Clamp(&o.Bad, 0, 3)
				engine.Clamp(&o.Via, 0, len(vias)-1)
				engine.Clamp(&o.Pause, 0, 7)
				engine.Clamp(&o.Work, 0, 7)
			}
		}
	}, runPools)
}

// The functions that call Submit.

type viaT struct{}

//go:noinline
func viaFunc(p goroutines.Pool, ctx context.Context, j goroutines.Job, o ...goroutines.SubmitOption) error {
	err := p.Submit(ctx, j, o...)
	return err
}

//go:noinline
func viaOther(p goroutines.Pool, ctx context.Context, j goroutines.Job, o ...goroutines.SubmitOption) error {
	if err := p.Submit(ctx, j, o...); err != nil {
		return err
	}
	return nil
}

//go:noinline
func (viaT) viaMethod(p goroutines.Pool, ctx context.Context, j goroutines.Job, o ...goroutines.SubmitOption) error {
	err := p.Submit(ctx, j, o...)
	return err
}

//go:noinline
func viaConcrete(p goroutines.Pool, ctx context.Context, j goroutines.Job, o ...goroutines.SubmitOption) error {
	var err error
	switch p := p.(type) {
	case *limited.Pool:
		err = p.Submit(ctx, j, o...)
	case *pooled.Pool:
		err = p.Submit(ctx, j, o...)
	}
	return err
}

type submitter func(p goroutines.Pool, ctx context.Context, j goroutines.Job, o ...goroutines.SubmitOption) error

var vias = []struct {
	f    submitter
	name string
}{
	{viaFunc, "otel.viaFunc"},
	{viaOther, "otel.viaOther"},
	{viaT{}.viaMethod, "otel.viaT.viaMethod"},
	{viaConcrete, "otel.viaConcrete"},
}

// want is what one Submit should have left on its span.
type want struct {
	where    string
	caller   string // suffix
	nb       bool
	accepted bool
	err      error
	block    int // -1: perhaps, else how many times
	took     time.Duration
	exact    bool
}

func pkgOf(kind int) string { return []string{"goroutines/limited", "goroutines/pooled"}[kind] }

// isSubmit and isBlock tell the events of a pool apart.
func isSubmit(ev spans.Event) bool { _, ok := ev.Attr["non_blocking"]; return ok }
func isBlock(ev spans.Event) bool  { return ev.Attr["event"] == "blocking" }

func latency(ev spans.Event) (time.Duration, bool) {
	s, _ := ev.Attr["submit_latency_ns"].(string)
	d, err := time.ParseDuration(s)
	return d, err == nil
}

// checkOwn compares a span that was used by a single Submit.
func checkOwn(e *engine.Env, c pCase, p goroutines.Pool, sp *spans.Span, w want) {
	sub, block := 0, 0
	for _, ev := range sp.Events() {
		switch {
		case isSubmit(ev):
			sub++
			checkEvent(e, c, p, ev, w)
			if ev.Attr["non_blocking"] != w.nb {
				e.Failf("C36", "%s: the event of the job says non_blocking=%v", w.where, ev.Attr["non_blocking"])
			}
			d, ok := latency(ev)
			if !ok || d < 0 || d > w.took {
				e.Failf("C36", "%s: the latency recorded is %v, and Submit took %v", w.where, ev.Attr["submit_latency_ns"], w.took)
			} else if w.exact && d != w.took {
				e.Failf("C36", "%s: the latency recorded is %v, and Submit waited for %v", w.where, d, w.took)
			}
		case isBlock(ev):
			block++
			checkEvent(e, c, p, ev, w)
			if sub > 0 {
				e.Failf("C36", "%s: blocking was recorded after the job was accepted", w.where)
			}
			if d, ok := latency(ev); !ok || d < 0 || d > w.took {
				e.Failf("C36", "%s: the latency recorded at blocking is %v, and Submit took %v", w.where, ev.Attr["submit_latency_ns"], w.took)
			}
		}
	}
	n := 0
	if w.accepted {
		n = 1
	}
	if sub != n {
		e.Failf("C36", "%s: %d events say that the job was submitted, and it should be %d", w.where, sub, n)
	}
	if w.nb && block > 0 {
		e.Failf("C36", "%s: blocking was recorded for a job that does not block", w.where)
	}
	if block > 1 || w.block >= 0 && block != w.block {
		e.Failf("C36", "%s: blocking was recorded %d times, and the job waited %d times", w.where, block, max(w.block, 0))
	}
	checkErrs(e, "C36", w.where, sp, w.err)
	if w.block > 0 || block > 0 {
		e.Label("waited")
	}
}

func checkEvent(e *engine.Env, c pCase, p goroutines.Pool, ev spans.Event, w want) {
	if s, _ := ev.Attr["caller"].(string); s != w.caller && !(strings.HasPrefix(w.caller, "otel.") && strings.HasSuffix(s, "/"+w.caller)) {
		e.Failf("C36", "%s: the event %q has the caller %q, and it was %q", w.where, ev.Name, s, w.caller)
	}
	if s := ev.Attr["name"]; s != p.GetName() {
		e.Failf("C36", "%s: the event %q has the pool %q, which is named %q", w.where, ev.Name, s, p.GetName())
	}
	if s, _ := ev.Attr["pkg"].(string); !strings.HasSuffix(s, pkgOf(c.Kind)) {
		e.Failf("C36", "%s: the event %q has the package %q", w.where, ev.Name, s)
	}
}

// checkErrs looks for exactly the error that was returned.
func checkErrs(e *engine.Env, tag, where string, sp *spans.Span, err error) {
	l := sp.Errors()
	if err == nil {
		if len(l) != 0 {
			e.Failf(tag, "%s: the error %q is on the span, and none was returned", where, l[0])
		}
		return
	}
	if len(l) != 1 {
		e.Failf(tag, "%s: the error %q was returned, and there are %d errors on the span", where, err, len(l))
		return
	}
	if l[0] != err && !errors.Is(l[0], err) && l[0].Error() != err.Error() {
		e.Failf(tag, "%s: the error on the span is %q, and %q was returned", where, l[0], err)
	}
}

func (c pCase) options(o pOp) []goroutines.SubmitOption {
	var l []goroutines.SubmitOption
	nb, caller, other := limited.NonBlocking, limited.Caller, pooled.NonBlocking
	if c.Kind == 1 {
		nb, caller, other = pooled.NonBlocking, pooled.Caller, limited.NonBlocking
	}
	if o.NB {
		l = append(l, nb())
	}
	if o.Caller > 0 {
		l = append(l, caller(callers[o.Caller]))
	}
	switch o.Bad {
	case 2:
		l = append([]goroutines.SubmitOption{other()}, l...)
	case 3:
		l = append(l, other())
	}
	return l
}

func runPools(e *engine.Env, c pCase) {
	var p goroutines.Pool
	var err error
	if c.Kind == 0 {
		p, err = limited.New(poolNames[c.Name], c.N)
	} else {
		p, err = pooled.New(poolNames[c.Name], c.N)
	}
	if err != nil {
		e.Failf("C36", "New(%q, %d) failed: %v", poolNames[c.Name], c.N, err)
		return
	}
	rec, base := spans.New(context.Background())
	kinds := map[string]bool{}
	// submit calls Submit and returns what should be on the span.
	submit := func(ctx context.Context, where string, o pOp, job goroutines.Job) want {
		w := want{where: where, nb: o.NB, caller: vias[o.Via].name, block: -1}
		if o.Caller > 0 {
			w.caller = callers[o.Caller]
		}
		if o.Bad == 1 {
			job = nil
		}
		t0 := time.Now()
		w.err = vias[o.Via].f(p, ctx, job, c.options(o)...)
		w.took = time.Since(t0)
		w.accepted = w.err == nil
		if w.accepted != (o.Bad == 0) {
			e.Failf("C36", "%s: Submit returned %v", where, w.err)
		}
		return w
	}

	// While there is room, nothing blocks.
	for i := 0; i < c.Free; i++ {
		o := pOp{NB: i == 3, Via: i % len(vias), Caller: i % 2}
		ctx, sp := rec.Root.Child(base, engine.S("free %d", i))
		w := submit(ctx, engine.S("job %d, with the pool empty", i), o, func(context.Context) {})
		w.block, w.exact = 0, e.Still()
		e.Settle()
		checkOwn(e, c, p, sp, w)
		sp.End()
	}

	// When it is full, the next one waits.
	if c.Full {
		gate := make(chan struct{})
		waiting := false
		for i := 0; i < c.N+8 && !waiting; i++ {
			o := pOp{Via: i % len(vias), Caller: i % 3}
			ctx, sp := rec.Root.Child(base, engine.S("full %d", i))
			var w want
			d := engine.Go(func() {
				w = submit(ctx, engine.S("job %d, with the pool filled", i), o, func(context.Context) { <-gate })
			})
			e.Settle()
			if engine.Done(d) {
				w.block = -1
				if i < c.N && c.Kind == 0 {
					w.block = 0
				}
				checkOwn(e, c, p, sp, w)
				sp.End()
				continue
			}
			waiting = true
			b := 0
			for _, ev := range sp.Events() {
				if isSubmit(ev) {
					e.Failf("C36", "job %d has been recorded as submitted, and Submit waits for the pool", i)
				}
				if isBlock(ev) {
					b++
				}
			}
			if b != 1 {
				e.Failf("C36", "job %d waits for the pool, and blocking was recorded %d times", i, b)
			}
			// One that does not block is not held up.
			nctx, nsp := rec.Root.Child(base, "not blocking")
			nw := submit(nctx, "a NonBlocking job, with the pool full", pOp{NB: true}, func(context.Context) {})
			nw.block = 0
			checkOwn(e, c, p, nsp, nw)
			nsp.End()
			time.Sleep(time.Second + 1234567)
			close(gate)
			if !e.Until(d) {
				e.Failf("C36", "job %d still waits after all others are done", i)
				return
			}
			w.block, w.exact = 1, e.Still()
			checkOwn(e, c, p, sp, w)
			sp.End()
			kinds["waited"] = true
		}
		if !waiting {
			close(gate)
		}
		p.Wait()
	}

	// Several at once.
	type res struct {
		own, shared *spans.Span
		w           want
		blocks      int
	}
	all := make([][]res, len(c.Ops))
	var ds []<-chan struct{}
	var shared []*spans.Span
	for g := range c.Ops {
		gctx, gsp := rec.Root.Child(base, engine.S("goroutine %d", g))
		shared = append(shared, gsp)
		ds = append(ds, engine.Go(func() {
			for i, o := range c.Ops[g] {
				engine.DoWork(o.Pause)
				r := res{}
				ctx := context.Background()
				switch o.Span {
				case 0:
					ctx, r.own = rec.Root.Child(base, engine.S("%d.%d", g, i))
				case 1:
					ctx, r.shared = gctx, gsp
				}
				sp := spans.From(ctx)
				where := engine.S("job %d of goroutine %d", i, g)
				r.w = submit(ctx, where, o, func(ctx context.Context) {
					if s := spans.From(ctx); s != sp {
						e.Failf("C36", "%s: the job runs with another span than it was submitted with", where)
					}
					engine.DoWork(o.Work)
				})
				all[g] = append(all[g], r)
			}
		}))
	}
	for g, d := range ds {
		if !e.Until(d) {
			e.Failf("C36", "goroutine %d does not get to its end", g)
			return
		}
	}
	p.Wait()
	e.Settle()
	for g := range all {
		var sub, errs int
		var ws []want
		for i, r := range all[g] {
			o := c.Ops[g][i]
			if r.w.accepted && o.NB {
				kinds["does not block"] = true
			}
			if !r.w.accepted {
				kinds["refused"] = true
			}
			if r.own != nil && r.w.accepted {
				kinds["accepted"] = true
			}
			if o.Caller > 0 {
				kinds["given caller"] = true
			}
			if r.own != nil {
				checkOwn(e, c, p, r.own, r.w)
				r.own.End()
			}
			if r.shared != nil {
				if r.w.accepted {
					sub++
					ws = append(ws, r.w)
				} else {
					errs++
				}
			}
		}
		// The events of the shared span come in the order of the submissions.
		k := 0
		for _, ev := range shared[g].Events() {
			if !isSubmit(ev) {
				continue
			}
			if k < len(ws) {
				checkEvent(e, c, p, ev, ws[k])
				if ev.Attr["non_blocking"] != ws[k].nb {
					e.Failf("C36", "%s: the event of the job says non_blocking=%v", ws[k].where, ev.Attr["non_blocking"])
				}
			}
			k++
		}
		if k != sub {
			e.Failf("C36", "goroutine %d: %d jobs were accepted under its span, which has %d events for jobs", g, sub, k)
		}
		if n := len(shared[g].Errors()); n != errs {
			e.Failf("C36", "goroutine %d: %d jobs were refused under its span, which has %d errors", g, errs, n)
		}
		shared[g].End()
	}
	p.Close()
	if n := len(rec.Root.Events()) + len(rec.Root.Errors()); n > 0 {
		e.Failf("C36", "%d events or errors are on a span that no job was submitted with", n)
	}
	if s := rec.Final(); s != "" {
		e.Failf("C36 C30", "%s", s)
	}
	for k := range kinds {
		e.Label(k)
	}
	if kinds["accepted"] && len(kinds) > 2 {
		e.NonTrivial()
	}
}
