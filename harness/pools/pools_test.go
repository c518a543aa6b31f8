// Package pools holds the units that exercise the goroutine pools through their public API.
package pools

import (
	"context"
	"errors"
	"io"
	"regexp"
	"runtime"
	"slices"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/zzverif/engine"
	"github.com/gostdlib/concurrency/zzverif/spans"
)

func TestZZ(t *testing.T) { engine.Main(t) }

var files = []string{"goroutines/"}

const (
	kLimited = 0
	kPooled  = 1
)

func newPool(kind int, name string, size int) (goroutines.Pool, error) {
	if kind == kLimited {
		p, err := limited.New(name, size)
		if err != nil {
			return nil, err
		}
		return p, nil
	}
	p, err := pooled.New(name, size)
	if err != nil {
		return nil, err
	}
	return p, nil
}

func nonBlocking(kind int) goroutines.SubmitOption {
	if kind == kLimited {
		return limited.NonBlocking()
	}
	return pooled.NonBlocking()
}

func caller(kind int, n string) goroutines.SubmitOption {
	if kind == kLimited {
		return limited.Caller(n)
	}
	return pooled.Caller(n)
}

func drawTrace(t *rapid.T) bool {
	return engine.Chance(t, "trace", map[bool]int{true: 90, false: 12}[engine.Focus == "C30"])
}

func endTrace(e *engine.Env, rec *spans.Recorder, on bool) {
	if s := rec.Final(); s != "" {
		e.Failf("C30", "%s", s)
	}
	e.LabelIf(on, "traced")
}

func init() {
	addModel()
	addStorm()
	addNames()
	addErrors()
}

// again names the property that a pool can be used after Wait.
func again(round int) string {
	if round > 0 {
		return " C04"
	}
	return ""
}

// nbTag names the property of the jobs submitted with NonBlocking.
func nbTag(nb bool) string {
	if nb {
		return " C03"
	}
	return ""
}

// ---------------------------------------------------------------------------------------------
// pools.model: one driver submits jobs, releases them and looks at the pool whenever
// nothing can move any more; a counting model says what must be running.

type mOp struct {
	K    int // 0 submit, 1 release, 2 nil job, 3 foreign option, 4 look, 5 release several
	NB   bool
	Gate bool
	Work int
	N    int
	Ctx  int // 0 live, 1 cancelled, 2 cancelled later, 3 deadline passed
	Call bool
	Exit bool // the job ends its goroutine
}

type mCase struct {
	Kind   int
	Size   int
	Named  bool
	Rounds [][]mOp
	Hold   int  // jobs left gated when Wait is called
	Trace  bool // contexts carry a recording span
}

func addModel() {
	engine.Add(engine.Unit{
		Name:  "pools.model",
		Rule:  "a pool, rounds of submits (blocking / non-blocking / nil / foreign option / cancelled contexts), releases and observations at points where nothing can move; non-trivial: more jobs outstanding at once than the size, or a NonBlocking submit to a full pool, or Wait called with jobs still running",
		Files: files,
	}, func(t *rapid.T) mCase {
		c := mCase{
			Kind:  rapid.IntRange(0, 1).Draw(t, "kind"),
			Named: engine.Chance(t, "named", 30),
		}
		if engine.Chance(t, "big", 6) {
			c.Size = engine.Size(t, "size", 1, 300)
		} else {
			c.Size = rapid.IntRange(1, 5).Draw(t, "size")
		}
		r := engine.Pick(t, "rounds", 1, 1, 1, 2, 3)
		for i := 0; i < r; i++ {
			n := engine.Pick(t, "n", 2, 4, 6, 10, 16, 24)
			if c.Size > 8 {
				n = c.Size + engine.Pick(t, "n2", 0, 1, 4)
			}
			nbp := engine.Pick(t, "nbp", 0, 0, 20, 50, 100)
			gp := engine.Pick(t, "gp", 30, 70, 100)
			rel := engine.Pick(t, "rel", 0, 20, 40)
			xp := engine.Pick(t, "xp", 0, 0, 0, 20, 100)
			if engine.Chance(t, "burst", 4) {
				n = engine.Size(t, "burstN", 25, 300)
				nbp, gp, rel = engine.Pick(t, "burstNB", 100, 90), 100, 0
			}
			var ops []mOp
			for j := 0; j < n; j++ {
				o := mOp{}
				k := rapid.IntRange(0, 99).Draw(t, "k")
				switch {
				case k < rel:
					o.K = engine.Pick(t, "k1", 1, 1, 5)
					o.N = rapid.IntRange(0, 50).Draw(t, "n3")
				case k >= 95:
					o.K = 2
				case k >= 90:
					o.K = 3
					o.NB = rapid.Bool().Draw(t, "nb")
				case k >= 85 && c.Size <= 8:
					o.K = 4
				default:
					o.NB = engine.Chance(t, "nb", nbp)
					o.Gate = engine.Chance(t, "gate", gp)
					o.Work = engine.Work(t, "work")
					o.Ctx = engine.Pick(t, "ctx", 0, 0, 0, 0, 0, 0, 1, 2, 3)
					o.Call = engine.Chance(t, "call", 20)
					o.Exit = engine.Chance(t, "exit", xp)
				}
				ops = append(ops, o)
			}
			c.Rounds = append(c.Rounds, ops)
		}
		c.Hold = engine.Pick(t, "hold", 0, 1, 1, 2, 3)
		c.Trace = drawTrace(t)
		return c
	}, func(c *mCase) {
		engine.Clamp(&c.Kind, 0, 1)
		engine.Clamp(&c.Size, 1, 5000)
		engine.Clamp(&c.Hold, 0, 100)
		if len(c.Rounds) > 8 {
			c.Rounds = c.Rounds[:8]
		}
		for i := range c.Rounds {
			if len(c.Rounds[i]) > 6000 {
				c.Rounds[i] = c.Rounds[i][:6000]
			}
		}
	}, runModel)
}

type mJob struct {
	id       int
	nb       bool
	gated    bool
	gate     chan struct{}
	open     bool
	ctx      context.Context
	cancel   context.CancelFunc
	returned <-chan struct{}
	err      error // valid once returned is closed
	begun    engine.Counter
	ended    engine.Counter
	slot     int // written by the job without any synchronisation of its own
	badCtx   engine.Counter
}

func runModel(e *engine.Env, c mCase) {
	name := ""
	if c.Named {
		name = "model"
	}
	p, err := newPool(c.Kind, name, c.Size)
	if err != nil {
		e.Failf("C02 C05", "New(%q, %d) failed: %v", name, c.Size, err)
		return
	}
	rec, base := spans.On(context.Background(), c.Trace)
	defer endTrace(e, rec, c.Trace)
	var all []*mJob
	full := false
	look := func(jobs []*mJob, where string) {
		e.Settle()
		var execB, execNB, outB, out, nbs int
		for _, j := range jobs {
			b, d := j.begun.Load(), j.ended.Load()
			if b > 1 {
				e.Failf("C01", "%s: job %d ran %d times", where, j.id, b)
			}
			if j.nb {
				nbs++
			}
			if d == 0 {
				out++
				if !j.nb {
					outB++
				}
			}
			if b > d {
				if j.nb {
					execNB++
				} else {
					execB++
				}
			}
			if j.nb {
				if !engine.Done(j.returned) {
					e.Failf("C03", "%s: a NonBlocking Submit (job %d) has not returned although nothing else can move", where, j.id)
				}
				if b == 0 {
					e.Failf("C03", "%s: a job submitted with NonBlocking (job %d) has not started although nothing else can move", where, j.id)
				}
			}
			// A job that needs no release has run to its end if it began.
			if b > 0 && d == 0 && !j.gated {
				e.Failf("*", "harness: %s: ungated job %d began but did not end", where, j.id)
			}
		}
		if execB > c.Size {
			e.Failf("C02", "%s: %d jobs submitted without NonBlocking run at once in a pool of size %d", where, execB, c.Size)
		}
		if outB > execB {
			full = true
			// Someone waits for capacity, so all of the capacity must be in use.
			busy := execB
			if c.Kind == kPooled {
				busy += execNB // a NonBlocking job may use a pooled goroutine
			}
			if busy < c.Size {
				tag := "C02"
				if nbs > 0 {
					tag = "C02 C03" // Perhaps the NonBlocking jobs took the slots.
				}
				e.Failf(tag, "%s: %d jobs wait although only %d of %d goroutines are in use", where, outB-execB, busy, c.Size)
			}
		}
		r := p.Running()
		if r < execB+execNB || r > out {
			e.Failf("C06", "%s: Running() = %d with %d jobs executing and %d submitted and unfinished", where, r, execB+execNB, out)
		}
		if l := p.Len(); l != c.Size {
			e.Failf("C06", "%s: Len() = %d, the pool was made with size %d", where, l, c.Size)
		}
	}
	for ri, ops := range c.Rounds {
		var jobs []*mJob
		release := func(j *mJob) {
			if j.gated && !j.open {
				j.open = true
				close(j.gate)
			}
		}
		closed := func() (l []*mJob) {
			for _, j := range jobs {
				if j.gated && !j.open {
					l = append(l, j)
				}
			}
			return
		}
		for oi, o := range ops {
			where := engine.S("round %d op %d", ri, oi)
			switch o.K {
			case 0:
				j := &mJob{id: len(all), nb: o.NB, gated: o.Gate, gate: make(chan struct{})}
				ctx, cancel := context.WithCancel(engine.WithTag(base, j.id))
				j.ctx, j.cancel = ctx, cancel
				switch o.Ctx {
				case 0:
					switch j.id % 5 {
					case 0: // one that cannot be cancelled
						cancel()
						j.ctx, j.cancel = engine.WithTag(base, j.id), func() {}
					case 1, 3:
						j.ctx, j.cancel = context.WithTimeout(ctx, 1e6*time.Hour)
					}
				case 1:
					cancel()
				case 3:
					j.ctx, j.cancel = context.WithDeadline(ctx, time.Now().Add(-1))
				}
				jobs = append(jobs, j)
				all = append(all, j)
				var opts []goroutines.SubmitOption
				if o.NB {
					opts = append(opts, nonBlocking(c.Kind))
				}
				if o.Call {
					opts = append(opts, caller(c.Kind, "harness"))
				}
				if j.id%2 == 1 {
					slices.Reverse(opts)
				}
				work, exit := o.Work, o.Exit
				j.returned = engine.Go(func() {
					j.err = p.Submit(j.ctx, func(ctx context.Context) {
						j.begun.Add(1)
						if engine.Tag(ctx) != any(j.id) {
							j.badCtx.Add(1)
						}
						if j.gated {
							<-j.gate
						}
						engine.DoWork(work)
						if !engine.CtxOK(ctx, j.ctx) {
							j.badCtx.Add(1)
						}
						j.slot++
						j.ended.Add(1)
						if exit {
							runtime.Goexit()
						}
					}, opts...)
				})
				if o.Ctx == 2 {
					j.cancel()
				}
			case 1:
				if l := closed(); len(l) > 0 {
					release(l[o.N%len(l)])
				}
			case 5:
				for i, j := range closed() {
					if i <= o.N {
						release(j)
					}
				}
			case 2:
				if err := p.Submit(base, nil); err == nil {
					e.Failf("C01", "%s: Submit(nil) did not fail", where)
				}
			case 3:
				ran := engine.Counter{}
				var opts []goroutines.SubmitOption
				if o.NB {
					opts = append(opts, nonBlocking(1-c.Kind))
				} else {
					opts = append(opts, caller(1-c.Kind, "x"))
				}
				switch oi % 3 { // next to options that fit
				case 1:
					opts = append(opts, nonBlocking(c.Kind))
				case 2:
					opts = append([]goroutines.SubmitOption{caller(c.Kind, "x"), nonBlocking(c.Kind)}, opts...)
				}
				if err := p.Submit(base, func(context.Context) { ran.Add(1) }, opts...); err == nil {
					e.Failf("C01", "%s: Submit with an option of the other kind of pool did not fail", where)
				}
				e.Settle()
				if ran.Load() != 0 {
					e.Failf("C01", "%s: a rejected job ran", where)
				}
				e.Label("rejected submit")
			}
			if len(ops) < 40 || oi == len(ops)-1 || oi%16 == 0 {
				look(jobs, where)
			}
		}
		// Release jobs until every Submit has returned, keeping up to Hold jobs gated.
		for guard := 0; ; guard++ {
			e.Settle()
			pending := 0
			for _, j := range jobs {
				if !engine.Done(j.returned) {
					pending++
				}
			}
			l := closed()
			if pending == 0 && len(l) <= c.Hold {
				break
			}
			if len(l) == 0 {
				e.Failf("C01 C02"+again(ri), "round %d: %d Submit calls never return although every job has been released", ri, pending)
				return
			}
			n := 1
			if len(l) > 16 {
				n = len(l) / 2
			}
			for _, j := range l[:n] {
				release(j)
			}
		}
		look(jobs, engine.S("round %d before Wait", ri))
		held := 0
		for _, j := range closed() {
			if j.begun.Load() > 0 {
				held++
			}
		}
		wait := engine.Go(func() { p.Wait() })
		for {
			e.Settle()
			l := closed()
			if len(l) == 0 {
				break
			}
			if engine.Done(wait) {
				e.Failf("C04", "round %d: Wait returned while %d submitted jobs had not finished", ri, len(l))
				break
			}
			release(l[0])
		}
		if !e.Until(wait) {
			tag := "C04"
			for _, j := range jobs {
				if j.begun.Load() == 0 {
					tag = "C04 C01 C02"
					if j.nb {
						tag += " C03"
						break
					}
				}
			}
			e.Failf(tag, "round %d: Wait does not return although every job could finish", ri)
			return
		}
		for _, j := range jobs {
			if j.err != nil {
				e.Failf("C01"+again(ri)+nbTag(j.nb), "round %d: Submit of job %d failed: %v", ri, j.id, j.err)
			}
			if j.slot != 1 || j.begun.Load() != 1 || j.ended.Load() != 1 {
				e.Failf("C01 C04"+nbTag(j.nb), "round %d: after Wait job %d had been started %d times and finished %d times", ri, j.id, j.begun.Load(), j.slot)
			}
			if j.badCtx.Load() != 0 {
				e.Failf("C01", "round %d: job %d was given a context other than the one it was submitted with", ri, j.id)
			}
			j.cancel()
		}
		if r := p.Running(); r != 0 {
			e.Failf("C06", "round %d: Running() = %d after Wait returned", ri, r)
		}
		if held > 0 {
			e.Label("wait with jobs running")
			e.NonTrivial()
		}
	}
	e.LabelIf(full, "more jobs than size")
	if full {
		e.NonTrivial()
	}
	cl := engine.Go(func() { p.Close() })
	if !e.Until(cl) {
		e.Failf("C04", "Close does not return")
		return
	}
	if r := p.Running(); r != 0 {
		e.Failf("C06", "Running() = %d after Close", r)
	}
	e.Label([]string{"limited", "pooled"}[c.Kind])
}

// ---------------------------------------------------------------------------------------------
// pools.storm: several goroutines submit at once.

type sJob struct {
	NB   bool
	Work int
	Nest int  // jobs submitted with NonBlocking from inside the job
	Exit bool // the job ends its goroutine
}

type sCase struct {
	Kind  int
	Size  int
	Named bool
	// Rounds: per round, per submitter, its jobs.
	Rounds [][][]sJob
	Rendez bool // also submit size jobs that wait for each other
	Close  bool // end the last round with Close in place of Wait, with jobs unfinished
	Obs    int  // observers polling the counters
	Trace  bool // contexts carry a recording span
}

func addStorm() {
	engine.Add(engine.Unit{
		Name:  "pools.storm",
		Rule:  "several goroutines submit jobs of generated lengths at once, over one to three rounds of use, under a generated schedule; non-trivial: at least two submitters and more jobs than the size",
		Files: files,
	}, func(t *rapid.T) sCase {
		c := sCase{
			Kind:   rapid.IntRange(0, 1).Draw(t, "kind"),
			Named:  engine.Chance(t, "named", 30),
			Rendez: engine.Chance(t, "rendez", 30),
			Close:  engine.Chance(t, "close", 40),
			Obs:    engine.Pick(t, "obs", 0, 0, 1, 2),
			Trace:  drawTrace(t),
		}
		big := engine.Chance(t, "big", 8)
		if big {
			c.Size = engine.Size(t, "size", 1, 1100)
		} else {
			c.Size = rapid.IntRange(1, 6).Draw(t, "size")
		}
		nr := engine.Pick(t, "rounds", 1, 1, 2, 3)
		for r := 0; r < nr; r++ {
			var round [][]sJob
			ns := engine.Pick(t, "submitters", 1, 2, 2, 3, 4, 8)
			nbp := engine.Pick(t, "nbp", 0, 0, 25, 60, 100)
			xp := engine.Pick(t, "xp", 0, 0, 0, 0, 10, 50)
			total := engine.Pick(t, "jobs", 3, 6, 10, 20, 40)
			if big {
				total = engine.Size(t, "jobsBig", 20, 2200)
				if engine.Rare(t, "huge?", 45) {
					total = engine.Huge(t, "huge", 4200)
				}
			}
			simple := total > 100
			for s := 0; s < ns; s++ {
				var l []sJob
				if simple {
					w := engine.Work(t, "work")
					for j := 0; j < total/ns; j++ {
						l = append(l, sJob{NB: nbp > 0 && j*7%100 < nbp, Work: w, Exit: j*13%100 < xp})
					}
				} else {
					for j := 0; j < (total+ns-1)/ns; j++ {
						l = append(l, sJob{NB: engine.Chance(t, "nb", nbp), Work: engine.Work(t, "work"), Nest: engine.Pick(t, "nest", 0, 0, 0, 0, 0, 0, 1, 2), Exit: engine.Chance(t, "exit", xp)})
					}
				}
				round = append(round, l)
			}
			c.Rounds = append(c.Rounds, round)
		}
		return c
	}, func(c *sCase) {
		engine.Clamp(&c.Kind, 0, 1)
		engine.Clamp(&c.Size, 1, 5000)
		engine.Clamp(&c.Obs, 0, 4)
		if len(c.Rounds) > 6 {
			c.Rounds = c.Rounds[:6]
		}
		for _, r := range c.Rounds {
			for _, l := range r {
				for i := range l {
					engine.Clamp(&l[i].Nest, 0, 3)
				}
			}
		}
	}, runStorm)
}

type slot struct {
	n     int // plain: the pool must order this write before Wait returns
	begun engine.Counter
	bad   engine.Counter
}

func runStorm(e *engine.Env, c sCase) {
	name := ""
	if c.Named {
		name = "storm"
	}
	p, err := newPool(c.Kind, name, c.Size)
	if err != nil {
		e.Failf("C02 C05", "New(%q, %d) failed: %v", name, c.Size, err)
		return
	}
	rec, base := spans.On(context.Background(), c.Trace)
	defer endTrace(e, rec, c.Trace)
	nb := nonBlocking(c.Kind)
	var cur, peak engine.Counter // blocking jobs executing
	var accepted engine.Counter
	enter := func() { peak.Max(cur.Add(1)) }
	for ri, round := range c.Rounds {
		total := 0
		before := accepted.Load()
		stop := make(chan struct{})
		for _, l := range round {
			for _, j := range l {
				total += 1 + j.Nest
			}
		}
		rn := 0
		if c.Rendez {
			rn = c.Size
		}
		slots := make([]slot, total+rn)
		at := 0
		var subs []<-chan struct{}
		var submit func(id int, j sJob)
		submit = func(id int, j sJob) {
			var opts []goroutines.SubmitOption
			if j.NB {
				opts = append(opts, nb)
			}
			accepted.Add(1)
			own := engine.WithTag(base, id)
			if id%3 == 1 {
				var st context.CancelFunc
				own, st = context.WithTimeout(own, 1e6*time.Hour)
				defer st()
			}
			err := p.Submit(own, func(ctx context.Context) {
				s := &slots[id]
				s.begun.Add(1)
				if !j.NB {
					enter()
				}
				if engine.Tag(ctx) != any(id) || !engine.CtxOK(ctx, own) {
					s.bad.Add(1)
				}
				for k := 0; k < j.Nest; k++ {
					submit(id+1+k, sJob{NB: true, Work: j.Work, Exit: j.Exit})
				}
				engine.DoWork(j.Work)
				s.n++
				if !j.NB {
					cur.Add(-1)
				}
				if j.Exit {
					runtime.Goexit()
				}
			}, opts...)
			if err != nil {
				e.Failf("C01"+again(ri)+nbTag(j.NB), "round %d: Submit failed: %v", ri, err)
			}
		}
		for _, l := range round {
			base := at
			for _, j := range l {
				at += 1 + j.Nest
			}
			subs = append(subs, engine.Go(func() {
				id := base
				for _, j := range l {
					submit(id, j)
					id += 1 + j.Nest
				}
			}))
		}
		if c.Rendez {
			var here engine.Counter
			all := make(chan struct{})
			first := total
			subs = append(subs, engine.Go(func() {
				for k := 0; k < c.Size; k++ {
					id := first + k
					accepted.Add(1)
					err := p.Submit(engine.WithTag(base, id), func(ctx context.Context) {
						s := &slots[id]
						s.begun.Add(1)
						enter()
						if engine.Tag(ctx) != any(id) {
							s.bad.Add(1)
						}
						if here.Add(1) == int64(c.Size) {
							close(all)
						}
						<-all
						s.n++
						cur.Add(-1)
					})
					if err != nil {
						e.Failf("C01"+again(ri), "round %d: Submit failed: %v", ri, err)
					}
				}
			}))
		}
		var obs []<-chan struct{}
		for o := 0; o < c.Obs; o++ {
			obs = append(obs, engine.Go(func() {
				for i := 0; i < 200; i++ {
					select {
					case <-stop:
						return
					default:
					}
					// A job counts until the pool has noted its end, so only earlier rounds are over for sure.
					r := int64(p.Running())
					acc := accepted.Load()
					if r < 0 || r > acc-before {
						e.Failf("C06", "round %d: Running() = %d while at most %d jobs were submitted and unfinished", ri, r, acc-before)
					}
					if l := p.Len(); l != c.Size {
						e.Failf("C06", "round %d: Len() = %d, the pool was made with size %d", ri, l, c.Size)
					}
					time.Sleep(time.Duration(1 + i))
				}
			}))
		}
		for _, s := range subs {
			if !e.Until(s) {
				e.Failf("C01 C02"+again(ri), "round %d: Submit calls do not return although jobs finish", ri)
				return
			}
		}
		last := ri == len(c.Rounds)-1
		var w <-chan struct{}
		if last && c.Close {
			w = engine.Go(func() { p.Close() })
		} else {
			w = engine.Go(func() { p.Wait() })
		}
		if !e.Until(w) {
			tag := "C04"
			for i := range slots {
				if slots[i].begun.Load() == 0 {
					tag = "C04 C01 C02"
				}
			}
			e.Failf(tag, "round %d: Wait/Close does not return", ri)
			return
		}
		<-w
		if r := p.Running(); r != 0 {
			e.Failf("C06", "round %d: Running() = %d after Wait/Close returned", ri, r)
		}
		for i := range slots {
			s := &slots[i]
			if s.n != 1 || s.begun.Load() != 1 {
				e.Failf("C01 C04", "round %d: after Wait/Close job %d of %d had started %d times and finished %d times", ri, i, len(slots), s.begun.Load(), s.n)
			}
			if s.bad.Load() != 0 {
				e.Failf("C01", "round %d: a job was given a context other than the one it was submitted with", ri)
			}
		}
		close(stop)
		for _, o := range obs {
			<-o
		}
		if len(round) > 1 && total > c.Size {
			e.NonTrivial()
		}
	}
	if m := peak.Load(); m > int64(c.Size) {
		e.Failf("C02", "%d jobs submitted without NonBlocking ran at once in a pool of size %d", m, c.Size)
	} else if m == int64(c.Size) {
		e.Label("pool fully used")
	}
	if len(c.Rounds) == 0 || !c.Close {
		p.Close()
	}
	e.Label([]string{"limited", "pooled"}[c.Kind])
	e.LabelIf(c.Size > 8, "large pool")
}

// ---------------------------------------------------------------------------------------------
// pools.names: pools come and go; their names are checked against a model of the names in use.

type nOp struct {
	K    int // 0 New, 1 Close, 2 several New at once, 3 New with a bad name, 4 New with a bad size, 5 Close several at once
	Kind int
	Name int // index into names
	N    int
	Bad  string
}

type nCase struct {
	Ops []nOp
}

var goodNames = []string{"alpha", "beta", "gamma", "", "a", "github.com/x/y", "naïve", "alpha_b", "näme", "alphab", "Alpha", "(x)", "a.b", "$", "%d", "%s_",
	strings.Repeat("n", 63), strings.Repeat("n", 64), strings.Repeat("n", 65), strings.Repeat("n", 300), "a.long.name.of.a.pool.to.tell.apart", "a.long.name.of.a.pool.to.tell.apart.from", "a.long.name.of.a.pool"}

var suffix = regexp.MustCompile(`^-[0-9]+$`)

func addNames() {
	engine.Add(engine.Unit{
		Name:  "pools.names",
		Rule:  "histories of New and Close (also several at once) over few names, with bad names and sizes mixed in; non-trivial: a name was asked for while a pool with that name was open, or again after Close",
		Files: files,
	}, func(t *rapid.T) nCase {
		var c nCase
		n := engine.Pick(t, "n", 2, 3, 5, 8, 12, 20, 40)
		nn := engine.Pick(t, "names", 1, 1, 2, 3, 7, len(goodNames))
		first := rapid.IntRange(0, len(goodNames)-1).Draw(t, "first")
		if nn == 7 {
			first = len(goodNames) - nn // names that are long and begin alike
		}
		for i := 0; i < n; i++ {
			o := nOp{
				K:    engine.Pick(t, "k", 0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5),
				Kind: rapid.IntRange(0, 1).Draw(t, "kind"),
				Name: first + rapid.IntRange(0, nn-1).Draw(t, "name"),
				N:    rapid.IntRange(0, 40).Draw(t, "nn"),
			}
			if o.K == 3 {
				o.Bad = rapid.StringMatching(`[a-z]{0,3}[0-9\- \t\n][a-z0-9\- ]{0,4}`).Draw(t, "bad")
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}, func(c *nCase) {
		if len(c.Ops) > 100 {
			c.Ops = c.Ops[:100]
		}
		for i := range c.Ops {
			o := &c.Ops[i]
			engine.Clamp(&o.Kind, 0, 1)
			engine.Clamp(&o.N, 0, 100)
			if o.Name < 0 {
				o.Name = 0
			}
			o.Name %= len(goodNames)
			if o.K == 3 && !strings.ContainsAny(o.Bad, "0123456789- \t\n") {
				o.Bad += "-"
			}
		}
	}, runNames)
}

func runNames(e *engine.Env, c nCase) {
	type live struct {
		p    goroutines.Pool
		name string
		base string
	}
	var open []live
	used := map[string]bool{}
	had := map[string]bool{}
	check := func(p goroutines.Pool, base string, concurrent int, where string) {
		got := p.GetName()
		open = append(open, live{p, got, base})
		if base == "" {
			if got != "" {
				e.Failf("C05", "%s: a pool made with the empty name is called %q", where, got)
			}
			return
		}
		if used[got] {
			e.Failf("C05", "%s: New(%q) gave the name %q, which an open pool has", where, base, got)
		}
		if got != base && !(strings.HasPrefix(got, base) && suffix.MatchString(got[len(base):])) {
			e.Failf("C05", "%s: New(%q) gave the name %q", where, base, got)
		}
		if concurrent == 0 {
			if !used[base] && got != base {
				e.Failf("C05", "%s: New(%q) gave the name %q although no open pool is called %q", where, base, got, base)
			}
			if used[base] || had[base] {
				e.NonTrivial()
			}
			e.LabelIf(used[base], "name taken")
			e.LabelIf(!used[base] && had[base], "name free again")
		}
		used[got] = true
		had[base] = true
	}
	closeOne := func(i int) {
		l := open[i]
		open = append(open[:i], open[i+1:]...)
		l.p.Close()
		if got := l.p.GetName(); got != l.name {
			e.Failf("C05", "the name of a pool changed from %q to %q", l.name, got)
		}
		delete(used, l.name)
	}
	for oi, o := range c.Ops {
		where := engine.S("op %d", oi)
		base := goodNames[o.Name]
		size := 1 + o.N%4
		switch o.K {
		case 0:
			var p goroutines.Pool
			var err error
			d := engine.Go(func() { p, err = newPool(o.Kind, base, size) })
			if !e.Until(d) {
				e.Failf("C05", "%s: New(%q) does not return", where, base)
				return
			}
			<-d
			if err != nil {
				e.Failf("C05", "%s: New(%q, %d) failed: %v", where, base, size, err)
				continue
			}
			check(p, base, 0, where)
		case 1:
			if len(open) > 0 {
				closeOne(o.N % len(open))
			}
		case 2:
			n := 2 + o.N%7
			ps := make([]goroutines.Pool, n)
			errs := make([]error, n)
			var ds []<-chan struct{}
			for i := 0; i < n; i++ {
				ds = append(ds, engine.Go(func() { ps[i], errs[i] = newPool((o.Kind+i)%2, base, size) }))
			}
			ok := true
			for _, d := range ds {
				if !e.Until(d) {
					e.Failf("C05", "%s: one of %d concurrent New(%q) does not return", where, n, base)
					return
				}
				<-d
			}
			wasUsed := used[base]
			for i := range ps {
				if errs[i] != nil {
					e.Failf("C05", "%s: New(%q, %d) failed: %v", where, base, size, errs[i])
					ok = false
					continue
				}
				check(ps[i], base, 1, where)
			}
			if ok && !wasUsed && base != "" && !used[base] {
				e.Failf("C05", "%s: none of %d concurrent New(%q) got the free name", where, n, base)
			}
			e.Label("concurrent New")
			e.NonTrivial()
		case 3:
			if p, err := newPool(o.Kind, o.Bad, size); err == nil {
				e.Failf("C05", "%s: New(%q) did not fail", where, o.Bad)
				p.Close()
			}
		case 4:
			if p, err := newPool(o.Kind, base, -(o.N % 3)); err == nil {
				e.Failf("C05", "%s: New with size %d did not fail", where, -(o.N % 3))
				p.Close()
			}
		case 5:
			n := min(len(open), 1+o.N%5)
			var ds []<-chan struct{}
			for _, l := range open[len(open)-n:] {
				ds = append(ds, engine.Go(func() { l.p.Close() }))
				delete(used, l.name)
			}
			open = open[:len(open)-n]
			for _, d := range ds {
				if !e.Until(d) {
					e.Failf("C05 C04", "%s: Close does not return", where)
					return
				}
				<-d
			}
		}
	}
	// Every open pool still works and keeps its name.
	for _, l := range open {
		if got := l.p.GetName(); got != l.name {
			e.Failf("C05", "the name of a pool changed from %q to %q", l.name, got)
		}
	}
	for len(open) > 0 {
		closeOne(len(open) - 1)
	}
}

// ---------------------------------------------------------------------------------------------
// pools.errors: goroutines.Errors.

type eCase struct {
	Writers []int // errors recorded by each writer
	Readers int
	Mutate  bool // a reader changes the slice it was given
	Reads   int
	Kinds   []int // of the errors, in turn: 0 new, 1 the same as the one before, 2 one that all writers record, 3 one that cannot be compared, 4 to 7 others that all record
}

// valueErr cannot be compared.
type valueErr struct {
	w, i int
	l    []int
}

func (r valueErr) Error() string { return engine.S("error %d of writer %d", r.i, r.w) }

// errAlls can be recorded by all writers.
var errAlls = []error{errors.New("EOF"), context.Canceled, context.DeadlineExceeded, io.EOF, errors.Join(context.Canceled, io.EOF)}

func isAll(err error) bool {
	if _, ok := err.(valueErr); ok {
		return false
	}
	for _, x := range errAlls {
		if x == err {
			return true
		}
	}
	return false
}

// sameErr compares errors of any kind.
func sameErr(a, b error) bool {
	x, ok := a.(valueErr)
	y, ok2 := b.(valueErr)
	if ok || ok2 {
		return ok && ok2 && x.w == y.w && x.i == y.i
	}
	return a == b
}

type recErr struct{ w, i int }

func (r *recErr) Error() string { return engine.S("error %d of writer %d", r.i, r.w) }

func addErrors() {
	engine.Add(engine.Unit{
		Name:  "pools.errors",
		Rule:  "writers record errors while readers read; non-trivial: at least two goroutines and two errors",
		Files: files,
	}, func(t *rapid.T) eCase {
		c := eCase{
			Readers: engine.Pick(t, "readers", 0, 1, 1, 2),
			Mutate:  engine.Chance(t, "mutate", 40),
			Reads:   engine.Pick(t, "reads", 1, 3, 10),
			Kinds:   []int{0},
		}
		if rapid.Bool().Draw(t, "kinds?") {
			c.Kinds = nil
			for i, n := 0, rapid.IntRange(1, 5).Draw(t, "kinds"); i < n; i++ {
				c.Kinds = append(c.Kinds, engine.Pick(t, "kind", 0, 0, 1, 1, 2, 3, 4, 5, 6, 7))
			}
		}
		for i, n := 0, engine.Pick(t, "writers", 0, 1, 2, 3, 5); i < n; i++ {
			if engine.Chance(t, "big", 5) {
				c.Writers = append(c.Writers, engine.Size(t, "n", 0, 3000))
				if engine.Rare(t, "huge?", 60) {
					c.Writers[len(c.Writers)-1] = engine.Huge(t, "huge", 70000)
				}
			} else {
				c.Writers = append(c.Writers, rapid.IntRange(0, 12).Draw(t, "n"))
			}
		}
		return c
	}, func(c *eCase) {
		engine.Clamp(&c.Readers, 0, 4)
		engine.Clamp(&c.Reads, 0, 50)
		if len(c.Writers) > 8 {
			c.Writers = c.Writers[:8]
		}
		if len(c.Kinds) == 0 {
			c.Kinds = []int{0}
		}
		for i := range c.Kinds {
			engine.Clamp(&c.Kinds[i], 0, 7)
		}
		for i := range c.Writers {
			engine.Clamp(&c.Writers[i], 0, 70000)
		}
	}, runErrors)
}

func runErrors(e *engine.Env, c eCase) {
	var es goroutines.Errors
	if es.Error() != nil || len(es.Errors()) != 0 {
		e.Failf("C07", "a fresh Errors is not empty")
	}
	mk := make([][]error, len(c.Writers))
	own := make([][]error, len(c.Writers)) // without those that all record
	total := 0
	all := map[error]int{}
	for w, n := range c.Writers {
		for i := 0; i < n; i++ {
			var x error = &recErr{w, i}
			switch k := c.Kinds[i%len(c.Kinds)]; {
			case k == 1 && len(own[w]) > 0:
				x = own[w][len(own[w])-1]
			case k == 2 || k > 3:
				x = errAlls[max(k-3, 0)]
				all[x]++
			case k == 3:
				x = valueErr{w: w, i: i}
			}
			mk[w] = append(mk[w], x)
			if !isAll(x) {
				own[w] = append(own[w], x)
			}
		}
		total += n
	}
	valid := func(l []error, where string, complete bool) {
		for w := range mk {
			if total == 0 || len(mk[w]) != total {
				continue
			}
			for k := 0; k < min(len(l), total); k++ { // The only writer.
				if !sameErr(l[k], mk[w][k]) {
					e.Failf("C07", "%s: Errors()[%d] is %q, and %q was recorded there", where, k, l[k], mk[w][k])
					return
				}
			}
		}
		next := make([]int, len(c.Writers))
		seen := map[error]int{}
		for k, x := range l {
			w := -1
			switch r := x.(type) {
			case *recErr:
				w = r.w
			case valueErr:
				w = r.w
			}
			if isAll(x) {
				seen[x]++
				continue
			}
			if w < 0 || w >= len(next) {
				e.Failf("C07", "%s: Errors()[%d] = %v was never recorded", where, k, x)
				return
			}
			if n := next[w]; n >= len(own[w]) || !sameErr(own[w][n], x) {
				e.Failf("C07", "%s: Errors()[%d] is %q, which is not the next one that writer %d recorded (lost, doubled or out of order)", where, k, x, w)
				return
			}
			next[w]++
		}
		for x, n := range seen {
			if n > all[x] {
				e.Failf("C07", "%s: an error that was recorded %d times is in Errors() %d times", where, all[x], n)
			}
		}
		if complete && len(l) != total {
			e.Failf("C07", "%s: %d errors recorded, Errors() has %d", where, total, len(l))
		}
	}
	var ds []<-chan struct{}
	for w := range c.Writers {
		ds = append(ds, engine.Go(func() {
			for _, x := range mk[w] {
				es.Record(x)
			}
		}))
	}
	for r := 0; r < c.Readers; r++ {
		ds = append(ds, engine.Go(func() {
			var prev []error
			for i := 0; i < c.Reads; i++ {
				l := es.Errors()
				valid(l, "during recording", false)
				if len(l) < len(prev) {
					e.Failf("C07", "Errors() shrank from %d to %d", len(prev), len(l))
				}
				for k := range prev {
					if k < len(l) && !sameErr(l[k], prev[k]) {
						e.Failf("C07", "Errors()[%d] changed between two calls", k)
						break
					}
				}
				prev = append([]error(nil), l...)
				f := es.Error()
				if len(prev) > 0 && !sameErr(f, prev[0]) {
					e.Failf("C07", "Error() = %v, the first error is %v", f, prev[0])
				}
				time.Sleep(time.Duration(i * 3))
			}
		}))
	}
	for _, d := range ds {
		if !e.Until(d) {
			e.Failf("C07", "Record, Error or Errors does not return")
			return
		}
		<-d
	}
	l := es.Errors()
	valid(l, "at the end", true)
	switch f := es.Error(); {
	case total == 0 && f != nil:
		e.Failf("C07", "Error() = %v with nothing recorded", f)
	case total > 0 && len(l) > 0 && !sameErr(f, l[0]):
		e.Failf("C07", "Error() = %v, the first error is %v", f, l[0])
	}
	if c.Mutate && len(l) > 0 {
		l[0] = context.Canceled
		_ = append(l[:0], context.Canceled, context.Canceled)
		valid(es.Errors(), "after the caller changed a slice it had been given", true)
	}
	if len(c.Writers)+c.Readers >= 2 && total >= 2 {
		e.NonTrivial()
	}
	e.LabelIf(c.Readers > 0 && total > 0, "read while recording")
}
