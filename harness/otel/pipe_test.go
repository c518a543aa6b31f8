package otel

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"go.opentelemetry.io/otel/codes"
	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/zzverif/engine"
	"github.com/gostdlib/concurrency/zzverif/spans"
)

// step is what a stage does with a request.
type step struct {
	To     int // the next stage, -1 none
	Err    int // 0 none, 1 an error, 2 context.Canceled, 3 cancel the context and go on
	Work   int
	Events []int // calls of Request.Event
	Ctx    int   // 0 as it is, 1 replaced by one with a span of the stage's own, 2 so before any event
}

type qReq struct {
	Span  int // 0 one of its own, 1 that of the group's submitter, 2 none
	Cncl  int // 0 no, 1 cancelled before Submit
	Steps []step
	Odd   bool // data that cannot be marshaled
	Pad   int  // length of a text in the data
	Pause int
}

type qGroup struct {
	Name string
	Reqs []qReq
	Slow int
}

type qCase struct {
	Pipes   int
	Ordered bool
	DAG     bool
	PP      int // preprocessors: 0 none, 1 one that counts, 2 one that has events
	Groups  []qGroup
}

func init() {
	engine.Add(engine.Unit{
		Name: "otel.pipe",
		Rule: "groups of requests with recording spans or none, whose stages go routes, change the data, fail, have events of every kind and put spans of their own into the context; the spans and all that they have recorded are compared with what happened; " +
			"non-trivial: a traced request went through at least two stages, and another had an event or an error",
		Files: []string{"pipelines/stagedpipe/stage", "dep:"},
		Scale: time.Minute,
	}, func(t *rapid.T) qCase {
		c := qCase{
			Pipes:   engine.Pick(t, "pipes", 1, 1, 2, 4),
			Ordered: engine.Chance(t, "ordered", 40),
			DAG:     engine.Chance(t, "dag", 25),
			PP:      engine.Pick(t, "pp", 0, 0, 1, 2),
		}
		for g, n := 0, engine.Pick(t, "groups", 1, 1, 2, 3); g < n; g++ {
			gr := qGroup{Name: engine.Pick(t, "name", "", "one", "a (b)", "g.h"), Slow: engine.Pick(t, "slow", 0, 0, 0, 1, 4, 6)}
			for i, m := 0, engine.Size(t, "reqs", 0, 10); i < m; i++ {
				r := qReq{
					Span:  engine.Pick(t, "span", 0, 0, 0, 0, 1, 1, 2),
					Odd:   engine.Chance(t, "odd", 10),
					Pad:   engine.Pick(t, "pad", 0, 0, 0, 1, 30, 200, 1000, 5000),
					Pause: engine.Pick(t, "pause", 0, 0, 0, 1, 4, 6),
				}
				if engine.Chance(t, "cncl", 6) {
					r.Cncl = 1
				}
				for k, o := 0, engine.Pick(t, "steps", 1, 1, 2, 3, 4, 6); k < o; k++ {
					s := step{
						To:   rapid.IntRange(0, nStages-1).Draw(t, "to"),
						Work: engine.Work(t, "w"),
						Ctx:  engine.Pick(t, "ctx", 0, 0, 0, 0, 1, 2),
					}
					if engine.Chance(t, "e", 12) {
						s.Err = engine.Pick(t, "err", 1, 1, 2, 3)
					}
					for x, y := 0, engine.Pick(t, "evs", 0, 0, 0, 1, 2, 4); x < y; x++ {
						s.Events = append(s.Events, rapid.IntRange(0, len(eventArgs)-1).Draw(t, "ev"))
					}
					r.Steps = append(r.Steps, s)
				}
				gr.Reqs = append(gr.Reqs, r)
			}
			c.Groups = append(c.Groups, gr)
		}
		return c
	}, func(c *qCase) {
		engine.Clamp(&c.Pipes, 1, 6)
		engine.Clamp(&c.PP, 0, 2)
		if len(c.Groups) > 4 {
			c.Groups = c.Groups[:4]
		}
		for g := range c.Groups {
			gr := &c.Groups[g]
			engine.Clamp(&gr.Slow, 0, 7)
			if len(gr.Reqs) > 30 {
				gr.Reqs = gr.Reqs[:30]
			}
			for i := range gr.Reqs {
				r := &gr.Reqs[i]
				engine.Clamp(&r.Span, 0, 2)
				engine.Clamp(&r.Cncl, 0, 1)
				if r.Cncl == 1 && r.Span == 1 { // One that is refused can have no span, and would be taken for another one.
					r.Span = 0
				}
				engine.Clamp(&r.Pause, 0, 7)
				engine.Clamp(&r.Pad, 0, 20000)
				if len(r.Steps) == 0 {
					r.Steps = []step{{}}
				}
				if len(r.Steps) > 10 {
					r.Steps = r.Steps[:10]
				}
				for k := range r.Steps {
					s := &r.Steps[k]
					engine.Clamp(&s.To, 0, nStages-1)
					engine.Clamp(&s.Err, 0, 3)
					engine.Clamp(&s.Work, 0, 7)
					engine.Clamp(&s.Ctx, 0, 2)
					if len(s.Events) > 6 {
						s.Events = s.Events[:6]
					}
					for x := range s.Events {
						engine.Clamp(&s.Events[x], 0, len(eventArgs)-1)
					}
				}
			}
		}
	}, runPipe)
}

// eventArgs are the arguments of Request.Event, with what should be recorded (nil: it is refused).
var eventArgs = []struct {
	name string
	args []any
	want map[string]any
}{
	{"plain", nil, map[string]any{}},
	{"ints", []any{"a", 1, "b", int64(2)}, map[string]any{"a": int64(1), "b": int64(2)}},
	{"bool", []any{"x", true, "y", false}, map[string]any{"x": true, "y": false}},
	{"float", []any{"f", 1.5}, map[string]any{"f": 1.5}},
	{"string", []any{"s", "text", "empty", ""}, map[string]any{"s": "text", "empty": ""}},
	{"duration", []any{"d", 90 * time.Second}, map[string]any{"d": "1m30s"}},
	{"slices", []any{"is", []int{1, 2}, "i64", []int64{3}, "ss", []string{"u", "v"}, "fs", []float64{0.5}, "bs", []bool{true, false}},
		map[string]any{"is": []int64{1, 2}, "i64": []int64{3}, "ss": []string{"u", "v"}, "fs": []float64{0.5}, "bs": []bool{true, false}}},
	{"durations", []any{"ds", []time.Duration{time.Second, time.Minute}}, map[string]any{"ds": []string{"1s", "1m0s"}}},
	{"", []any{"a", 1}, nil},
	{"odd", []any{"a"}, nil},
	{"odd", []any{"a", 1, "b"}, nil},
	{"key", []any{1, 1}, nil},
	{"type", []any{"a", struct{}{}}, nil},
	{"type", []any{"a", 1, "b", uint8(3)}, nil},
}

const nStages = 4

var stageNames = []string{".Start", ".Second", ".Third", ".Last"}

// Data is what a request carries.
type Data struct {
	Group int
	Num   int
	Trail []int
	Text  string
	Bad   any
	seen  *qSeen
}

// run of a stage
type visit struct {
	stage    int
	span     *spans.Span // of the context
	from, to time.Time
	events   []int
}

// qSeen is what happened to a request.
type qSeen struct {
	r        qReq
	sp       *spans.Span // that Submit was called with
	refused  error
	visits   []visit
	cancel   context.CancelFunc
	own      []*spans.Span // started by stages
	pp       int
	out      *Data
	outErr   error
	outCtx   context.Context
	t0, t1   time.Time // Submit
	got      time.Time
	received bool
}

type qSM struct {
	e   *engine.Env
	rec *spans.Recorder
}

func (q *qSM) Close() {}

func (q *qSM) Start(r stagedpipe.Request[Data]) stagedpipe.Request[Data]  { return q.do(0, r) }
func (q *qSM) Second(r stagedpipe.Request[Data]) stagedpipe.Request[Data] { return q.do(1, r) }
func (q *qSM) Third(r stagedpipe.Request[Data]) stagedpipe.Request[Data]  { return q.do(2, r) }
func (q *qSM) Last(r stagedpipe.Request[Data]) stagedpipe.Request[Data]   { return q.do(3, r) }

var errStage = errors.New("made up: the stage failed")

func (q *qSM) do(n int, r stagedpipe.Request[Data]) stagedpipe.Request[Data] {
	x := r.Data.seen
	v := visit{stage: n, span: spans.From(r.Ctx), from: time.Now()}
	pos := len(r.Data.Trail)
	where := engine.S("group %d, request %d, stage %d of its route", r.Data.Group, r.Data.Num, pos)
	s := step{}
	if pos < len(x.r.Steps) {
		s = x.r.Steps[pos]
	}
	put := func() {
		if v.span != nil {
			var sp *spans.Span
			r.Ctx, sp = v.span.Child(r.Ctx, "of the stage")
			x.own = append(x.own, sp)
		}
	}
	if s.Ctx == 2 {
		put()
	}
	for _, k := range s.Events {
		a := eventArgs[k]
		err := r.Event(a.name, a.args...)
		switch {
		case v.span == nil:
			if err != nil {
				q.e.Failf("C38", "%s: Event without a span returned %v", where, err)
			}
		case a.want == nil:
			if err == nil {
				q.e.Failf("C38", "%s: Event(%q, %v) returned no error", where, a.name, a.args)
			}
		default:
			if err != nil {
				q.e.Failf("C38", "%s: Event(%q, %v) returned %v", where, a.name, a.args, err)
			}
			v.events = append(v.events, k)
		}
	}
	engine.DoWork(s.Work)
	r.Data.Trail = append(r.Data.Trail[:pos:pos], n)
	if s.Ctx == 1 {
		put()
	}
	if s.Ctx > 0 && len(x.own) > 0 {
		x.own[len(x.own)-1].End()
	}
	switch s.Err {
	case 1:
		r.Err = errStage
	case 2:
		r.Err = context.Canceled
	case 3:
		x.cancel()
	}
	if pos+1 < len(x.r.Steps) {
		r.Next = []stagedpipe.Stage[Data]{q.Start, q.Second, q.Third, q.Last}[s.To]
	}
	v.to = time.Now()
	x.visits = append(x.visits, v)
	return r
}

func runPipe(e *engine.Env, c qCase) {
	rec, base := spans.New(context.Background())
	sm := &qSM{e: e, rec: rec}
	var opts []stagedpipe.Option[Data]
	if c.Ordered {
		opts = append(opts, stagedpipe.Ordered[Data]())
	}
	if c.DAG {
		opts = append(opts, stagedpipe.DAG[Data]())
	}
	switch c.PP {
	case 1:
		opts = append(opts, stagedpipe.PreProcessors(func(r stagedpipe.Request[Data]) stagedpipe.Request[Data] { r.Data.seen.pp++; return r }))
	case 2:
		opts = append(opts, stagedpipe.PreProcessors(func(r stagedpipe.Request[Data]) stagedpipe.Request[Data] {
			if err := r.Event("pre", "pp", 1); err != nil {
				e.Failf("C38", "Event in a preprocessor returned %v", err)
			}
			return r
		}))
	}
	p, err := stagedpipe.New[Data]("otel", c.Pipes, sm, opts...)
	if err != nil {
		e.Failf("C38", "New failed: %v", err)
		return
	}
	var wg sync.WaitGroup
	all := make([][]*qSeen, len(c.Groups))
	firstSpan := make([]*spans.Span, len(c.Groups))
	subs := make([]*spans.Span, len(c.Groups))
	closed := make([][2]time.Time, len(c.Groups))
	for g, gr := range c.Groups {
		var sctx context.Context
		sctx, subs[g] = rec.Root.Child(base, engine.S("submitter %d", g))
		rg := p.NewRequestGroup()
		rg.Name = gr.Name
		for range gr.Reqs {
			all[g] = append(all[g], nil)
		}
		wg.Add(2)
		go func() {
			defer wg.Done()
			for r := range rg.Out() {
				engine.DoWork(gr.Slow)
				x := r.Data.seen
				if x == nil {
					e.Failf("C38", "group %d: a request lost its data", g)
					continue
				}
				x.received, x.got = true, time.Now()
				d := r.Data
				x.out, x.outErr, x.outCtx = &d, r.Err, r.Ctx
				if err := r.Event("after the end", "a", 1); err != nil {
					e.Failf("C38", "group %d: Event after the request has come out returned %v", g, err)
				}
			}
		}()
		go func() {
			defer wg.Done()
			for i, q := range gr.Reqs {
				engine.DoWork(q.Pause)
				x := &qSeen{r: q}
				all[g][i] = x
				ctx := context.Background()
				switch q.Span {
				case 0:
					ctx, x.sp = rec.Root.Child(base, engine.S("caller %d.%d", g, i))
				case 1:
					ctx, x.sp = sctx, subs[g]
				}
				ctx, x.cancel = context.WithCancel(ctx)
				if q.Cncl == 1 {
					x.cancel()
				}
				d := Data{Group: g, Num: i, Text: strings.Repeat("é\"<\n", q.Pad/5) + strings.Repeat("x", q.Pad%5), seen: x}
				if q.Odd {
					d.Bad = make(chan int)
				}
				if i == 0 {
					firstSpan[g] = x.sp
				}
				x.t0 = time.Now()
				x.refused = rg.Submit(stagedpipe.Request[Data]{Ctx: ctx, Data: d})
				x.t1 = time.Now()
			}
			closed[g][0] = time.Now()
			rg.Close()
			closed[g][1] = time.Now()
		}()
	}
	d := engine.Go(wg.Wait)
	if !e.Until(d) {
		e.Failf("C38", "the groups do not get to their end")
		return
	}
	p.Close()
	e.Settle()

	long, special := 0, 0
	for g, gr := range c.Groups {
		gname := gr.Name
		if gname == "" {
			gname = "unnamed"
		}
		// The group's span is under that of its first request.
		var gsp *spans.Span
		var loose []*spans.Span
		if f := firstSpan[g]; f != nil {
			for _, k := range f.Children() {
				if !strings.Contains(k.Name, "Request(") {
					loose = append(loose, k)
				}
			}
			if len(loose) != 1 {
				e.Failf("C38", "group %d: it has %d spans, where its first request was submitted", g, len(loose))
				continue
			}
			gsp = loose[0]
			checkGroup(e, engine.S("group %d", g), gname, gsp, all[g], closed[g])
		}
		used := map[*spans.Span]bool{}
		for i, x := range all[g] {
			where := engine.S("group %d, request %d", g, i)
			if x.sp == nil {
				continue
			}
			up := x.sp
			if i == 0 {
				up = gsp
			}
			// The request's span: the one of that number.
			var rs *spans.Span
			for _, k := range up.Children() {
				if strings.Contains(k.Name, "Request(") && !used[k] {
					rs = k
					break
				}
			}
			if x.refused != nil && rs == nil { // Submit can find out before it starts a span.
				continue
			}
			if rs == nil {
				e.Failf("C38", "%s: it has no span of its own where it was submitted", where)
				continue
			}
			used[rs] = true
			if !strings.Contains(rs.Name, "("+gname+")") {
				e.Failf("C38", "%s: the group is named %q, and the span %q", where, gname, rs.Name)
			}
			if checkRequest(e, c, where, rs, x); len(x.visits) > 1 {
				long++
			}
			if x.outErr != nil {
				special++
			}
			for _, v := range x.visits {
				special += len(v.events)
			}
		}
		for _, x := range all[g] {
			if x.sp != nil && x.sp != subs[g] {
				for _, k := range x.sp.Children() {
					if k != gsp && !used[k] {
						e.Failf("C38", "group %d: the span %q belongs to nothing that was submitted there", g, k.Name)
					}
				}
				x.sp.End()
			}
			if x.sp != nil && len(x.sp.Events())+len(x.sp.Errors()) > 0 {
				e.Failf("C38", "group %d: there are events or errors on the caller's span", g)
			}
			x.cancel()
		}
		subs[g].End()
	}
	if s := rec.Final(); s != "" {
		e.Failf("C38 C30", "%s", s)
	}
	e.LabelIf(long > 0, "more than one stage")
	e.LabelIf(special > 0, "an event or an error")
	if long > 0 && special > 0 {
		e.NonTrivial()
	}
}

func checkGroup(e *engine.Env, where, name string, s *spans.Span, reqs []*qSeen, closed [2]time.Time) {
	if !strings.Contains(s.Name, "("+name+")") {
		e.Failf("C38", "%s: the group is named %q, and its span %q", where, name, s.Name)
	}
	start, end := 0, 0
	for _, ev := range s.Events() {
		if v, ok := ev.Attr["time_ns"]; ok {
			start++
			if end > 0 || !between(v, reqs[0].t0, reqs[0].t1) {
				e.Failf("C38", "%s: it was started at %v, says its event, and it was from %v to %v", where, v, reqs[0].t0, reqs[0].t1)
			}
		}
		if v, ok := ev.Attr["elapsed_ns"]; ok {
			end++
			d, ok := elapsed(v)
			if !ok || d < closed[0].Sub(reqs[0].t1) || d > closed[1].Sub(reqs[0].t0) {
				e.Failf("C38", "%s: it took %v, says its event, and it was from %v to %v", where, v, closed[0].Sub(reqs[0].t1), closed[1].Sub(reqs[0].t0))
			}
		}
	}
	if start != 1 || end != 1 {
		e.Failf("C38", "%s: its span has %d events for its start and %d for its end", where, start, end)
	}
	if s.Ended() != 1 {
		e.Failf("C38 C30", "%s: its span was ended %d times", where, s.Ended())
	}
}

// sameData compares the data of an event with what it should be.
func sameData(v any, d *Data, trail []int) bool {
	s, ok := v.(string)
	if !ok || s == "" {
		return false
	}
	if d.Bad != nil {
		return true
	}
	var got struct {
		Group, Num int
		Trail      []int
		Text       string
	}
	if json.Unmarshal([]byte(s), &got) != nil || got.Group != d.Group || got.Num != d.Num || got.Text != d.Text || len(got.Trail) != len(trail) {
		return false
	}
	for i := range trail {
		if got.Trail[i] != trail[i] {
			return false
		}
	}
	return true
}

func checkRequest(e *engine.Env, c qCase, where string, rs *spans.Span, x *qSeen) {
	if rs.Ended() != 1 {
		e.Failf("C38 C30", "%s: its span was ended %d times", where, rs.Ended())
	}
	if x.refused != nil {
		if rs.Status() != codes.Error || rs.Desc() != x.refused.Error() {
			e.Failf("C38", "%s: Submit returned %q, and the status is %v %q", where, x.refused, rs.Status(), rs.Desc())
		}
		return
	}
	if !x.received {
		e.Failf("C38 C20", "%s: it did not come out", where)
		return
	}
	// Status.
	if x.outErr != nil {
		if rs.Status() != codes.Error || rs.Desc() != x.outErr.Error() {
			e.Failf("C38", "%s: it failed with %q, and the status is %v %q", where, x.outErr, rs.Status(), rs.Desc())
		}
	} else if rs.Status() == codes.Error {
		e.Failf("C38", "%s: it did not fail, and the status is %v %q", where, rs.Status(), rs.Desc())
	}
	// Beginning and end.
	var begin, end int
	for _, ev := range rs.Events() {
		if v, ok := ev.Attr["queue_wait_ns"]; ok {
			begin++
			d, ok := elapsed(v)
			if !ok || d < 0 || len(x.visits) > 0 && d > x.visits[0].from.Sub(x.t0) {
				e.Failf("C38", "%s: it waited for %v, says its event", where, v)
			}
			if !sameData(ev.Attr["data"], x.out, nil) {
				e.Failf("C38", "%s: its data at the start is recorded as %v", where, ev.Attr["data"])
			}
			if end > 0 {
				e.Failf("C38", "%s: the event of its start comes after that of its end", where)
			}
		}
		if v, ok := ev.Attr["elapsed_ns"]; ok {
			end++
			d, ok := elapsed(v)
			if !ok || len(x.visits) > 0 && d < x.visits[len(x.visits)-1].to.Sub(x.t1) || d > x.got.Sub(x.t0) {
				e.Failf("C38", "%s: it took %v, says its event", where, v)
			}
			if !sameData(ev.Attr["data"], x.out, x.out.Trail) {
				e.Failf("C38", "%s: its data at the end is recorded as %v, and it is %v", where, ev.Attr["data"], x.out.Trail)
			}
		}
		if ev.Name == "pre" || ev.Name == "after the end" || ev.Attr["start"] != nil || ev.Attr["end"] != nil {
			e.Failf("C38", "%s: the event %q is on the span of the request", where, ev.Name)
		}
	}
	if begin != 1 || end != 1 {
		e.Failf("C38", "%s: its span has %d events for its start and %d for its end", where, begin, end)
	}
	// Stages.
	kids := rs.Children()
	extra := len(kids) - len(x.visits)
	if extra != 0 && !(extra == 1 && x.outErr != nil) {
		e.Failf("C38", "%s: it went through %d stages, and there are %d spans for them", where, len(x.visits), len(kids))
		return
	}
	for i, v := range x.visits {
		s := kids[i]
		if s != v.span {
			e.Failf("C38", "%s: stage %d of its route ran with another span", where, i)
			continue
		}
		if !strings.HasSuffix(s.Name, stageNames[v.stage]) {
			e.Failf("C38", "%s: stage %d of its route is %s, and its span %q", where, i, stageNames[v.stage], s.Name)
		}
		if s.Ended() != 1 {
			e.Failf("C38 C30", "%s: the span of stage %d of its route was ended %d times", where, i, s.Ended())
		}
		before, after := x.t0, x.got
		if i > 0 {
			before = x.visits[i-1].to
		}
		if i+1 < len(x.visits) {
			after = x.visits[i+1].from
		}
		var starts, ends, pre int
		var l []spans.Event
		for _, ev := range s.Events() {
			switch {
			case ev.Name == "pre":
				pre++
			case ev.Attr["start"] != nil:
				starts++
				if !between(ev.Attr["start"], before, v.from) || ends > 0 || len(l) > 0 {
					e.Failf("C38", "%s: stage %d of its route began at %v, says its event, and it was from %v to %v", where, i, ev.Attr["start"], before, v.from)
				}
			case ev.Attr["end"] != nil:
				ends++
				if !between(ev.Attr["end"], v.to, after) {
					e.Failf("C38", "%s: stage %d of its route ended at %v, says its event, and it was from %v to %v", where, i, ev.Attr["end"], v.to, after)
				}
			default:
				l = append(l, ev)
				if ends > 0 {
					e.Failf("C38", "%s: stage %d of its route has an event after its end", where, i)
				}
			}
		}
		if starts != 1 || ends != 1 {
			e.Failf("C38", "%s: stage %d of its route has %d events for its start and %d for its end", where, i, starts, ends)
		}
		if c.PP == 2 && pre != 1 {
			e.Failf("C38", "%s: stage %d of its route has %d events of the preprocessor", where, i, pre)
		}
		if len(l) != len(v.events) {
			e.Failf("C38", "%s: stage %d of its route called Event %d times, and there are %d events", where, i, len(v.events), len(l))
			continue
		}
		for k, ev := range l {
			a := eventArgs[v.events[k]]
			if ev.Name != a.name || ev.N != len(a.want) || !reflect.DeepEqual(ev.Attr, a.want) {
				e.Failf("C38", "%s: stage %d of its route called Event(%q, %v), recorded is %q with %v", where, i, a.name, a.args, ev.Name, fmt.Sprint(ev.Attr))
			}
		}
	}
}
