package pipe

import (
	"context"
	"errors"
	"math"
	"time"

	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/zzverif/engine"
)

// Options of the constructor.
const (
	noDAG     = 0
	noOrdered = 1
	noPP      = 2 // a PreProcessor that does nothing
	noPPNone  = 3 // PreProcessors()
	noWarn    = 4 // DelayWarning of D
	noCount   = 5
	noCountNo = 6 // CountSubStages of objects without stages, or none at all
	noUser    = 7 // the user's own
	noFail    = 8 // the user's own, which fails
)

type newOpt struct {
	K int
	D int64
}

type newCase struct {
	Num  int
	Nil  bool
	Kind int
	Opts []newOpt
	Req  int
	Name string
	Cyc  bool // every other request comes to a stage twice
	Meet bool // as many requests as there can be meet in their first stage
	Late bool // the consumer comes late
}

func init() {
	engine.Add(engine.Unit{
		Name: "pipe.new",
		Rule: "calls of New with valid and invalid numbers of pipelines, state machines and options in any order; what was made is used and closed; " +
			"non-trivial: New must fail although some of the arguments are valid, or succeed with two or more options",
		Files: []string{"pipelines/stagedpipe/stage", "dep:"},
		Scale: time.Minute,
	}, func(t *rapid.T) newCase {
		c := newCase{
			Num:  engine.Pick(t, "num", 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 3, 3, 7, 7, 0, 0, -1, -1, -5, math.MinInt, math.MinInt, 0),
			Nil:  engine.Chance(t, "nil", 8),
			Kind: rapid.IntRange(0, nKinds-1).Draw(t, "kind"),
			Req:  engine.Pick(t, "req", 0, 1, 3),
			Name: engine.Pick(t, "name", "", "name", "a name", "%s%d"),
			Cyc:  engine.Chance(t, "cyc", 30),
			Meet: engine.Chance(t, "meet", 25),
			Late: engine.Chance(t, "late", 30),
		}
		if engine.Chance(t, "many", 2) {
			c.Num = engine.Size(t, "many.n", 1, 300)
		}
		n := engine.Pick(t, "n", 0, 0, 1, 1, 2, 2, 3, 4, 6)
		bad := engine.Chance(t, "bad", 50)
		for range engine.Pick(t, "pps", 0, 0, 0, 0, 0, 0, 0, 3, 4, 8) {
			c.Opts = append(c.Opts, newOpt{K: noPP})
		}
		for i := 0; i < n; i++ {
			o := newOpt{K: engine.Pick(t, "k", 0, 1, 2, 3, 4, 4, 4, 5, 6, 7)}
			if bad && engine.Chance(t, "fail", 30) {
				o.K = noFail
			}
			o.D = engine.Pick(t, "d", int64(10*time.Millisecond), int64(time.Second), int64(time.Hour), 0, int64(math.MaxInt64), 1000, int64(400*time.Microsecond))
			if bad {
				o.D = engine.Pick(t, "d", o.D, -1, -int64(time.Second), math.MinInt64)
			}
			c.Opts = append(c.Opts, o)
		}
		return c
	}, func(c *newCase) {
		engine.Clamp(&c.Num, math.MinInt, 300)
		if c.Num > 10 {
			c.Late = false
		}
		engine.Clamp(&c.Kind, 0, nKinds-1)
		engine.Clamp(&c.Req, 0, 5)
		if len(c.Opts) > 16 {
			c.Opts = c.Opts[:16]
		}
	}, runNew)
}

func runNew(e *engine.Env, c newCase) {
	e.LeakTag = "C33"
	e.Slack = 12 * time.Hour
	lines.reset()
	fc := &flowCase{Progs: [][]step{{{}}, {{}, {}}, {{Work: 6}}}}
	k := &core{e: e, name: "pipelines", c: fc, t0: time.Now()}
	k.allow, k.n = stagesOf(conf{Kind: c.Kind})
	for _, o := range c.Opts {
		if o.K == noCount {
			k.n += 3
		}
	}
	k.n *= max(c.Num, 1)
	if c.Meet = c.Meet && k.n <= 150; c.Meet {
		k.meet = make(chan struct{})
		c.Req = max(c.Req, k.n)
	}
	if c.Late {
		c.Req += 8 + k.n
	}
	fc.Groups = []group{{Reqs: make([]req, c.Req)}}
	k.tr = [][]*track{nil}
	for range c.Req {
		k.tr[0] = append(k.tr[0], &track{})
	}
	sm, _ := machine(c.Kind, k)
	var maxWarn, lastWarn int64
	dag, ordered := false, false
	if c.Nil {
		sm = nil
	}
	errUser := errors.New("harness error of an option")
	var opts []stagedpipe.Option[data]
	var calls, pps engine.Counter
	wantPPs := 0
	fail, user := false, false
	for _, o := range c.Opts {
		switch o.K {
		case noDAG:
			dag = true
			opts = append(opts, stagedpipe.DAG[data]())
		case noOrdered:
			ordered = true
			opts = append(opts, stagedpipe.Ordered[data]())
		case noPP:
			wantPPs++
			opts = append(opts, stagedpipe.PreProcessors(func(r request) request { pps.Add(1); return r }))
		case noPPNone:
			opts = append(opts, stagedpipe.PreProcessors[data]())
		case noWarn:
			if o.D < 0 {
				fail = true
			}
			if o.D > 0 && o.D < 1000 {
				o.D = 1000
			}
			if o.D > 0 && o.D < int64(10*time.Millisecond) && e.PlanKind() != 0 {
				o.D = int64(10 * time.Millisecond) // Delays are long, and each tick is a step.
			}
			maxWarn, lastWarn = max(maxWarn, o.D), o.D
			opts = append(opts, stagedpipe.DelayWarning[data](time.Duration(o.D)))
		case noCount:
			opts = append(opts, stagedpipe.CountSubStages[data](&s1{k}, s2{k}))
		case noCountNo:
			opts = append(opts, stagedpipe.CountSubStages[data](), stagedpipe.CountSubStages[data](struct{}{}, 3))
		case noUser:
			opts = append(opts, func(p *stagedpipe.Pipelines[data]) error { calls.Add(1); return nil })
		default:
			user = true
			opts = append(opts, func(p *stagedpipe.Pipelines[data]) error { return errUser })
		}
	}
	bad := c.Num < 1 || c.Nil || fail || user
	p, err := stagedpipe.New(c.Name, c.Num, sm, opts...)
	if (err != nil) != bad {
		e.Failf("C33", "New with num %d, nil state machine %v and options %+v returned the error %v", c.Num, c.Nil, c.Opts, err)
	}
	if err != nil {
		if user && !fail && c.Num >= 1 && !c.Nil && !errors.Is(err, errUser) {
			e.Failf("C33", "New returned %v instead of the error of an option", err)
		}
		// What is left behind shows at the end of the case.
		e.Label("New failed")
		if len(c.Opts) > 0 || c.Num >= 1 {
			e.NonTrivial()
		}
		return
	}
	if p == nil {
		e.Failf("C33", "New returned neither Pipelines nor an error")
		return
	}
	k.p = p
	g := p.NewRequestGroup()
	prog := func(i int) int {
		switch {
		case c.Cyc && i%2 == 1:
			return 1
		case i == 0:
			return 2
		}
		return 0
	}
	// The time without a consumer; at most some thousand ticks. With Ordered, sorting can take up any number of requests.
	late := time.Duration(0)
	if c.Late && !ordered && lastWarn > 0 && maxWarn < int64(2*time.Hour) {
		late = time.Duration(maxWarn)*3 + 2*time.Millisecond + time.Duration(k.n)*time.Millisecond
		for _, o := range c.Opts {
			if o.K == noWarn && o.D > 0 && int64(late)/o.D > 5000 {
				late = 0
			}
		}
		if !e.Exact() {
			late = 0
		}
	}
	for _, o := range c.Opts {
		if o.K == noWarn && o.D > 0 && o.D < int64(10*time.Millisecond) && e.PlanKind() == 0 {
			e.Slack = late + 200*time.Millisecond // Each tick is a step.
		}
	}
	n, next := 0, 0
	warned := 0
	got := engine.Go(func() {
		if late > 0 {
			time.Sleep(late)
			warned = lines.delays()
		}
		for r := range g.Out() {
			i := r.Data.I
			if i < 0 || i >= c.Req {
				e.Failf("C33", "a request came out that nobody submitted")
				continue
			}
			if cyc := dag && prog(i) == 1; cyc != stagedpipe.IsErrCyclic(r.Err) || !cyc && r.Err != nil {
				e.Failf("C33", "DAG %v, cyclic route %v, and a request came out with the error %v", dag, prog(i) == 1, r.Err)
			}
			if ordered && i != next {
				e.Failf("C33", "with Ordered, request %d came out as number %d", i, next)
			}
			next++
			n++
		}
	})
	used := engine.Go(func() {
		for i := 0; i < c.Req; i++ {
			ctx := context.WithValue(context.Background(), ctxTag{}, i)
			if err := g.Submit(request{Ctx: ctx, Data: data{I: i, Prog: prog(i)}}); err != nil {
				e.Failf("C33", "Submit: %v", err)
			}
		}
		g.Close()
		<-got
		p.Close()
	})
	if !e.Until(used) {
		e.Failf("C33", "Pipelines made with num %d and options %+v do not process %d requests (%d stages must be able to run at once)", c.Num, c.Opts, c.Req, k.n)
		e.IgnoreLeaks = true
		return
	}
	<-used
	if n != c.Req {
		e.Failf("C33", "%d of %d requests came out", n, c.Req)
	}
	want := 0
	for i := 0; i < c.Req; i++ {
		want += wantPPs
		if prog(i) == 1 && !dag {
			want += wantPPs
		}
	}
	if x := int(pps.Load()); x != want {
		e.Failf("C33", "PreProcessors were called %d times, want %d", x, want)
	}
	if x := int(k.peak.Load()); x > k.n {
		e.Failf("C33", "%d stages ran at once, at most %d should", x, k.n)
	}
	if late > 0 {
		e.Label("late consumer with DelayWarning")
		if warned == 0 {
			e.Failf("C33", "no warning although output was not taken for %v with the options %+v", late, c.Opts)
		}
	}
	if d := lines.delays(); maxWarn == 0 && d > 0 {
		e.Failf("C33", "%d warnings although none were asked for", d)
	}
	e.LabelIf(c.Meet, "all stages active at once")
	e.LabelIf(c.Cyc && dag, "DAG with a cycle")
	e.LabelIf(ordered && c.Req > 1, "order checked")
	e.Label("New succeeded")
	if len(c.Opts) >= 2 {
		e.NonTrivial()
	}
}
