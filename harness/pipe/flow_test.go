package pipe

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"go.opentelemetry.io/otel/codes"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/zzverif/engine"
	"github.com/gostdlib/concurrency/zzverif/spans"
)

// Kinds of contexts of a request.
const (
	ctxLive     = 0
	ctxPre      = 1 // cancelled before Submit
	ctxAt       = 2 // cancelled At after Submit was called
	ctxDeadline = 3 // deadline At after Submit was called
	ctxErrSet   = 4 // live, but the request comes with Err set
	ctxNil      = 5
)

// step is what one stage of a program does.
type step struct {
	S    int // stage; step 0 is always Start
	Work int
	Err  int  // fails, if not 0, with an error of this kind
	Name bool // names a next stage although it fails
	Canc bool // cancels the request's context
	PPE  int  // PreProcessor (from 1) that fails before the stage
	NewC int  // sets another context: 1 one derived from its own, 2 such a one that is cancelled
}

type req struct {
	P     int
	Ctx   int
	At    int64
	Delay int // work before Submit
	Next  int // submitted with the Next of a stage (from 1)
	Odd   int // the data has a part of this kind
}

type group struct {
	Reqs  []req
	Sub   int   // goroutines that submit
	CWork int   // work of the consumer per request
	Pause int64 // the consumer stops reading for so long
	Stall int   // after it has read so many
	Start int64 // the group is made so late
	Named bool
	Every int // and again after every so many more
	Win   int // at most so many requests are on their way; the next waits for one to come out
	Rep   int // and so many plain requests after the others
}

type conf struct {
	Pipes   int
	Kind    int // of state machine
	Subs    int // bits: 1 s1, 2 s2, 4 a function, 8 s3, 16 s4
	Count   bool
	PP      int
	DAG     bool
	Ordered bool
	Warn    int64
}

type flowCase struct {
	A      conf
	B      *conf // second set of Pipelines that gets what comes out of the first
	Progs  [][]step
	Groups []group
	Meet   bool // as many requests as can be in stages at once wait for each other in Start
	Early  bool // Pipelines.Close right after the last Submit
	Stats  bool // look at the Stats all the time
	Trace  bool
}

func init() {
	engine.Add(engine.Unit{
		Name: "pipe.flow",
		Rule: "one or two chained Pipelines with generated shape, options and stage programs (routes, loops, failures, cancellations), several groups with several submitters and consumers of their own speed; " +
			"non-trivial: at least two requests that differ in program, context or group, or a meeting of all stages",
		Files: []string{"pipelines/stagedpipe/stage", "pipelines/stagedpipe/stats", "dep:"},
		Scale: time.Minute,
	}, genFlow, normFlow, runFlow)
}

func genConf(t *rapid.T, l string) conf {
	c := conf{
		Pipes: engine.Pick(t, l+"pipes", 1, 1, 1, 2, 2, 3, 5),
		Kind:  rapid.IntRange(0, nKinds-1).Draw(t, l+"kind"),
		Subs:  engine.Pick(t, l+"subs", 0, 0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 31),
		Count: rapid.Bool().Draw(t, l+"count"),
		PP:    engine.Pick(t, l+"pp", 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 9),
		DAG:   engine.Chance(t, l+"dag", 30),
	}
	c.Ordered = engine.Chance(t, l+"ord", 35)
	if engine.Chance(t, l+"warn?", 20) {
		c.Warn = engine.Pick(t, l+"warn", int64(10*time.Millisecond), int64(time.Second), int64(time.Minute), int64(time.Hour))
	}
	return c
}

func genFlow(t *rapid.T) flowCase {
	c := flowCase{A: genConf(t, "a.")}
	f := engine.Focus
	only := func(p string) bool { return f == p }
	if engine.Chance(t, "chain", map[bool]int{true: 35, false: 10}[f == "C23" || f == "C20"]) {
		b := genConf(t, "b.")
		c.B = &b
	}
	switch f {
	case "C22":
		c.A.Ordered = true
	case "C23":
		c.A.DAG = engine.Chance(t, "dag!", 85)
		if engine.Chance(t, "subs!", 25) {
			c.A.Subs |= 16
		}
	case "C24":
		c.Meet = engine.Chance(t, "meet!", 70)
	case "C29":
		if c.A.Warn == 0 {
			c.A.Warn = engine.Pick(t, "warn!", int64(10*time.Millisecond), int64(time.Second), int64(time.Minute))
		}
	}
	if f != "C24" {
		c.Meet = engine.Chance(t, "meet", 4)
	}
	np := engine.Pick(t, "np", 1, 1, 2, 2, 3, 4)
	newc := []int{0}
	if engine.Chance(t, "newc?", 30) {
		newc = []int{0, 0, 1, 1, 2}
	}
	next := engine.Chance(t, "next?", map[bool]int{true: 40, false: 10}[f == "C21" || f == "C23"])
	long := engine.Chance(t, "long?", map[bool]int{true: 50, false: 15}[f == "C29" || f == "C27"])
	for i := 0; i < np; i++ {
		var p []step
		clean := false // nothing keeps a request from coming to the end
		n := engine.Pick(t, "steps", 1, 1, 2, 2, 3, 3, 4, 6, 9)
		if c.A.DAG && engine.Chance(t, "all?", 30) {
			// About as many as there are stages.
			l, _ := stagesOf(c.A)
			n = len(l) + rapid.IntRange(-1, 1).Draw(t, "all")
			n = max(n, 1)
			clean = engine.Chance(t, "clean", 75)
		}
		for j := 0; j < n; j++ {
			s := step{
				S:    rapid.IntRange(0, nStages-1).Draw(t, "s"),
				Work: engine.Work(t, "w"),
			}
			if long && engine.Chance(t, "long", 25) {
				s.Work = engine.Pick(t, "longw", 7, 7, 8)
				if f == "C27" && engine.Chance(t, "hours", 30) {
					s.Work = 9
				}
			}
			if only("C21") || only("C20") || engine.Chance(t, "fail?", 30) {
				s.Err = engine.Pick(t, "err", 0, 0, 0, 0, 0, 0, 0, 0, 1, 2)
				if s.Err == 2 {
					s.Err = rapid.IntRange(2, maxErr).Draw(t, "errk")
				}
				s.Name = rapid.Bool().Draw(t, "name")
				s.PPE = engine.Pick(t, "ppe", 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3)
				if s.PPE == 3 && c.A.PP > 3 {
					s.PPE = c.A.PP
				}
			}
			s.NewC = engine.Pick(t, "newc", newc...)
			s.Canc = engine.Chance(t, "canc", map[bool]int{true: 15, false: 3}[only("C25")])
			if clean {
				s.Err, s.PPE, s.Canc, s.NewC = 0, 0, false, s.NewC&1
			}
			p = append(p, s)
		}
		// In a DAG most routes visit every stage once.
		if c.A.DAG && engine.Chance(t, "distinct", 60) {
			o := rapid.IntRange(0, nStages-1).Draw(t, "o")
			l, _ := stagesOf(c.A)
			for j := 1; j < len(p) && len(l) > 1; j++ {
				p[j].S = 1 + (o+j)%(len(l)-1)
			}
			if j := len(p) - 1; j > 1 && rapid.Bool().Draw(t, "again") {
				p[j].S = p[max(j-engine.Pick(t, "back", 1, 1, 2, 3, 5, 8, 13, 21), 1)].S
			}
		}
		c.Progs = append(c.Progs, p)
	}
	ng := engine.Pick(t, "ng", 1, 1, 1, 2, 2, 3, 4)
	maxReq := 60
	if f == "C28" {
		ng = engine.Pick(t, "ng28", 2, 3, 4, 6, 8, 12)
		maxReq = 20
	}
	if ng == 1 && np == 1 && !c.Meet && engine.Chance(t, "big", 8) {
		maxReq = 600
	}
	slow := engine.Chance(t, "slow", 25)
	oddp := engine.Pick(t, "oddp", 0, map[bool]int{true: 30, false: 5}[f == "C30"])
	for i := 0; i < ng; i++ {
		g := group{
			Sub:   engine.Pick(t, "sub", 1, 1, 1, 1, 2, 3),
			CWork: engine.Pick(t, "cw", 0, 0, 0, 0, 1, 3, 5),
			Named: rapid.Bool().Draw(t, "named"),
			Start: int64(engine.Pick(t, "start", 0, 0, 0, 1, 2, 5, 100, 1000, 5000)),
		}
		if engine.Chance(t, "win?", 20) {
			g.Win = engine.Pick(t, "win", 1, 1, 1, 2, 2, 3, 5, 8)
		}
		if slow {
			g.Pause = engine.Pick(t, "pause", int64(0), 0, 1000, int64(time.Millisecond), int64(time.Second), int64(10*time.Second), int64(time.Hour))
		}
		if c.A.Warn != 0 && engine.Chance(t, "almost", 15) {
			g.Pause = c.A.Warn / 4 * 3
		}
		n := engine.Size(t, "n", 0, maxReq)
		canc := 8
		switch f {
		case "C25":
			canc = 45
		case "C22":
			canc = 20
		}
		for j := 0; j < n; j++ {
			r := req{P: rapid.IntRange(0, np-1).Draw(t, "p")}
			if engine.Chance(t, "ctx?", canc) {
				r.Ctx = engine.Pick(t, "ctx", 1, 2, 2, 3, 3, 4, 5)
				r.At = int64(engine.Pick(t, "at", 0, 1, 2, 5, 20, 100, 1000, 5000, 100000))
			}
			r.Delay = engine.Pick(t, "delay", 0, 0, 0, 0, 1, 3, 5)
			if oddp > 0 && engine.Chance(t, "odd?", oddp) {
				r.Odd = rapid.IntRange(1, 8).Draw(t, "odd")
			}
			if next {
				r.Next = engine.Pick(t, "next", 0, 1, 2, 3)
			}
			g.Reqs = append(g.Reqs, r)
		}
		if maxReq == 600 && engine.Rare(t, "huge?", 70) {
			g.Rep = engine.Huge(t, "huge", 5200)
			g.Pause, g.CWork = 0, 0
		}
		if g.Pause != 0 && rapid.Bool().Draw(t, "stall?") {
			g.Stall = rapid.IntRange(0, n).Draw(t, "stall")
		}
		c.Groups = append(c.Groups, g)
	}
	// Many groups that are used for one request, next to those that stay.
	if p := map[bool]int{true: 10, false: 1}[f == "C28"]; engine.Chance(t, "churn?", p) {
		n := engine.Pick(t, "churn", 20, 64, 100, 257, 300)
		if rapid.Bool().Draw(t, "stay") {
			c.Groups[0].Reqs = append(c.Groups[0].Reqs, req{Delay: 6})
		}
		for j := 0; j < n; j++ {
			g := group{Sub: 1, Start: int64(j * 10)}
			if j%3 > 0 {
				g.Reqs = []req{{}}
			}
			c.Groups = append(c.Groups, g)
		}
	}
	// Pipelines that are not used at all.
	if f == "C26" && !c.Meet && engine.Chance(t, "unused", 3) {
		c.Groups = nil
	}
	// Output that is held up for longer than the time given, and nothing else that takes long.
	if f == "C29" && engine.Chance(t, "held?", 25) {
		c.Meet = false
		k := &c.A
		if c.B != nil && rapid.Bool().Draw(t, "held2") {
			k = c.B
			c.A.Warn = 0
		} else {
			c.B = nil
		}
		k.Warn = engine.Pick(t, "heldwarn", int64(10*time.Millisecond), int64(100*time.Millisecond), int64(time.Second), int64(time.Minute))
		c.A.Ordered, k.Ordered, k.Pipes = false, false, min(k.Pipes, 2)
		c.A.Pipes, c.A.Subs, k.Subs = min(c.A.Pipes, 2), c.A.Subs&3, k.Subs&3
		for i := range c.Progs {
			for j := range c.Progs[i] {
				s := &c.Progs[i][j]
				s.Work = min(s.Work, 4)
				s.Canc, s.NewC = false, 0
				if c.B != nil {
					s.Err, s.PPE = 0, 0
				}
			}
		}
		_, n := stagesOf(c.A)
		room := 3*c.A.Pipes*n + 20
		if c.B != nil {
			c.A.DAG = false
			_, n = stagesOf(*c.B)
			room += 3*c.B.Pipes*n + 20
		}
		g := group{Sub: engine.Pick(t, "sub", 1, 1, 2, 3), Pause: k.Warn + int64(600*time.Millisecond), Stall: rapid.IntRange(0, 30).Draw(t, "stall!")}
		g.Pause *= int64(engine.Pick(t, "longer", 1, 1, 2, 5))
		if rapid.Bool().Draw(t, "every?") {
			g.Every = rapid.IntRange(1, 40).Draw(t, "every")
		}
		for range g.Stall + room + rapid.IntRange(0, 60).Draw(t, "nheld") {
			g.Reqs = append(g.Reqs, req{P: rapid.IntRange(0, np-1).Draw(t, "p")})
		}
		c.Groups = []group{g}
	}
	c.Early = engine.Chance(t, "early", 40)
	c.Stats = engine.Chance(t, "stats", map[bool]int{true: 60, false: 10}[f == "C27"])
	c.Trace = f == "C30" || engine.Chance(t, "trace", 10)
	return c
}

func normConf(c *conf) {
	engine.Clamp(&c.Pipes, 1, 12)
	engine.Clamp(&c.Kind, 0, nKinds-1)
	engine.Clamp(&c.Subs, 0, 31)
	engine.Clamp(&c.PP, 0, 12)
	if c.Warn != 0 {
		engine.Clamp(&c.Warn, int64(10*time.Millisecond), int64(10*time.Hour))
	}
}

// stagesOf returns the stages a request can go to, and how many of them count.
func stagesOf(c conf) (l []int, n int) {
	k := kinds[c.Kind]
	for i := 0; i < k; i++ {
		l = append(l, i)
	}
	n = k
	if c.Subs&1 != 0 {
		l = append(l, 6)
		if c.Count {
			n++
		}
	}
	if c.Subs&2 != 0 {
		l = append(l, 7, 8)
		if c.Count {
			n += 2
		}
	}
	if c.Subs&4 != 0 {
		l = append(l, 9)
	}
	if c.Subs&8 != 0 {
		l = append(l, 10, 11, 12, 13)
		if c.Count {
			n += 4
		}
	}
	if c.Subs&16 != 0 { // Never counted.
		for i := 14; i < nStages; i++ {
			l = append(l, i)
		}
	}
	return l, n
}

// large cases can take days of virtual time.
func large(c *flowCase) bool {
	n := len(c.Groups)
	for _, g := range c.Groups {
		n += len(g.Reqs) + g.Rep
		if g.Pause > int64(10*time.Second) {
			return true
		}
	}
	for _, p := range c.Progs {
		for _, s := range p {
			if s.Work > 7 {
				return true
			}
		}
	}
	return n > 200
}

// hours tells whether stages take hours.
func hours(c *flowCase) bool {
	for _, p := range c.Progs {
		for _, s := range p {
			if s.Work > 8 {
				return true
			}
		}
	}
	return false
}

func normFlow(c *flowCase) {
	normConf(&c.A)
	if c.B != nil {
		normConf(c.B)
	}
	if len(c.Progs) == 0 {
		c.Progs = [][]step{{{}}}
	}
	if len(c.Progs) > 8 {
		c.Progs = c.Progs[:8]
	}
	for i := range c.Progs {
		if len(c.Progs[i]) == 0 {
			c.Progs[i] = []step{{}}
		}
		if len(c.Progs[i]) > 50 {
			c.Progs[i] = c.Progs[i][:50]
		}
		for j := range c.Progs[i] {
			s := &c.Progs[i][j]
			engine.Clamp(&s.S, 0, nStages-1)
			engine.Clamp(&s.Work, 0, 9)
			engine.Clamp(&s.Err, 0, maxErr)
			engine.Clamp(&s.PPE, 0, 12)
			engine.Clamp(&s.NewC, 0, 2)
		}
		c.Progs[i][0].S = 0
	}
	if len(c.Groups) > 320 {
		c.Groups = c.Groups[:320]
	}
	for i := range c.Groups {
		g := &c.Groups[i]
		if lim := map[bool]int{true: 600, false: 150}[len(c.Groups) == 1]; len(g.Reqs) > lim {
			g.Reqs = g.Reqs[:lim]
		}
		engine.Clamp(&g.Rep, 0, 70000)
		if len(c.Groups) > 1 || c.Meet || g.Pause != 0 || len(c.Progs) > 1 {
			g.Rep = 0
		}
		if g.Rep > 0 {
			g.CWork = 0
			c.A.Warn = 0
			// What the case costs.
			cost := (len(c.Progs[0]) + 2) * (6 + c.A.PP)
			if c.B != nil {
				cost += (len(c.Progs[0]) + 2) * (6 + c.B.PP)
			}
			if c.Trace {
				cost *= 5
			}
			engine.Clamp(&g.Rep, 0, 400_000/cost)
			if c.B != nil {
				c.B.Warn = 0
			}
			for j := range c.Progs[0] {
				s := &c.Progs[0][j]
				s.Work = min(s.Work, 5)
			}
		}
		engine.Clamp(&g.Sub, 1, 4)
		engine.Clamp(&g.Pause, 0, int64(time.Hour))
		engine.Clamp(&g.Start, 0, int64(time.Second))
		engine.Clamp(&g.Stall, 0, len(g.Reqs))
		if g.Every != 0 { // Not too often.
			engine.Clamp(&g.Every, len(g.Reqs)/5+1, 1000)
		}
		engine.Clamp(&g.Win, 0, 150)
		if c.Meet {
			g.Win = 0
		}
		for j := range g.Reqs {
			r := &g.Reqs[j]
			if r.P < 0 || r.P >= len(c.Progs) {
				r.P = 0
			}
			engine.Clamp(&r.Ctx, 0, 5)
			engine.Clamp(&r.Next, 0, 3)
			engine.Clamp(&r.Odd, 0, 8)
			engine.Clamp(&r.At, 0, int64(time.Second))
		}
	}
	// Every goroutine that cannot pass a request on is woken once a DelayWarning: not for ever.
	least := int64(0)
	for _, g := range c.Groups {
		n := 1
		if g.Every > 0 {
			n += len(g.Reqs) / g.Every
		}
		least += g.Pause / 1000 * int64(n)
	}
	if len(c.Groups) > 20 {
		least += int64(time.Second)
	}
	for _, k := range []*conf{&c.A, c.B} {
		if k != nil && k.Warn != 0 && len(c.Groups) > 1 {
			k.Warn = max(k.Warn, min(least, int64(time.Hour)))
		}
	}
	if large(c) { // No ticks for hours.
		for _, k := range []*conf{&c.A, c.B} {
			if k != nil && k.Warn != 0 {
				k.Warn = max(k.Warn, int64(time.Minute))
				if hours(c) {
					k.Warn = max(k.Warn, int64(time.Hour))
				}
			}
		}
	}
	if c.Meet {
		// As many plain requests as can be in stages at once.
		_, n := stagesOf(c.A)
		n *= c.A.Pipes
		have := 0
		for i := range c.Groups {
			for j := range c.Groups[i].Reqs {
				c.Groups[i].Reqs[j].Ctx = 0
				have++
			}
		}
		if len(c.Groups) == 0 {
			c.Groups = []group{{Sub: 1}}
		}
		for ; have < n; have++ {
			c.Groups[0].Reqs = append(c.Groups[0].Reqs, req{})
		}
		for i := range c.Progs {
			c.Progs[i][0].PPE = 0
		}
	}
}

// track is what is known about one request in one set of Pipelines.
type track struct {
	sub     int64 // virtual time+1 of the call of Submit
	entry   engine.Counter
	exit    engine.Counter
	execs   engine.Counter // stages executed
	subCal  int64          // Seq at call and return of Submit
	subRet  int64
	subDone engine.Counter // 1 when subRet is set
	refused engine.Counter // 1 when Submit failed
	err     error          // of Submit
	outs    engine.Counter
	canc    engine.Counter // virtual time+1 of the cancellation
	out     request
	outSeq  int64
	log     []int
	pcAt    int // where the program of this set of Pipelines starts
	subEnd  int64
	mu      sync.Mutex
	span    *spans.Span // of the request, seen by its first stage
}

// core is what the stages of one set of Pipelines share.
type core struct {
	e      *engine.Env
	name   string
	c      *flowCase
	cf     conf
	allow  []int
	n      int // stages that may be active at once
	t0     time.Time
	p      *stagedpipe.Pipelines[data]
	stages [nStages]stage
	tr     [][]*track
	closed engine.Counter
	cur    engine.Counter
	peak   engine.Counter
	meet   chan struct{}
	met    engine.Counter
	cancel func(g, i int)
	mark   func(g, i int)
	rec    *spans.Recorder
	began  engine.Counter
	stalls []stall // of a single group
}

// stall is a time when the consumer read nothing.
type stall struct {
	read int64 // what it had read
	warn int   // warnings meanwhile
}

// errCause is why contexts are cancelled; what they report is context.Canceled.
var errCause = errors.New("harness cause")

var errPre = errors.New("error the request came with")

type stageErr struct {
	g, i, pc int
}

func (s *stageErr) Error() string {
	return fmt.Sprintf("harness error of request %d/%d at step %d", s.g, s.i, s.pc)
}

// valErr cannot be compared.
type valErr struct {
	g, i, pc int
	l        []int
}

func (s valErr) Error() string { return "harness error that cannot be compared" }

type nilErr struct{}

func (*nilErr) Error() string { return "a nil pointer as an error" }

const maxErr = 11

// mkErr returns the error of a stage: 1 one of its own, and otherwise one that code may be tempted to
// treat in a special way.
func mkErr(kind, g, i, pc int) error {
	switch kind {
	case 2:
		return context.Canceled
	case 3:
		return context.DeadlineExceeded
	case 4:
		return fmt.Errorf("made up: %w", context.Canceled)
	case 5:
		return io.EOF
	case 6:
		return stagedpipe.Error{Type: "harness", Msg: "cyclic"}
	case 7:
		return valErr{g: g, i: i, pc: pc}
	case 8:
		return (*nilErr)(nil)
	case 9:
		return errPre
	case 10:
		return errors.New("cyclic: a -> b")
	case 11: // As if from other Pipelines that the stage uses.
		return stagedpipe.Error{Type: "cyclic", Msg: "a -> b"}
	}
	return &stageErr{g, i, pc}
}

// sameErr compares errors made by mkErr, also by two calls.
func sameErr(a, b error) bool {
	switch x := a.(type) {
	case *stageErr:
		y, ok := b.(*stageErr)
		return ok && *x == *y
	case valErr:
		y, ok := b.(valErr)
		return ok && x.g == y.g && x.i == y.i && x.pc == y.pc
	}
	if _, ok := b.(valErr); ok {
		return false
	}
	return a == b || a != nil && b != nil && fmt.Sprintf("%T %v", a, a) == fmt.Sprintf("%T %v", b, b)
}

func (c *core) now() int64 { return int64(time.Since(c.t0)) + 1 }

func (c *core) smClose() {
	c.closed.Add(1)
	if n := c.cur.Load(); n != 0 {
		c.e.Failf("C26", "%s: the state machine is closed while %d stages are running", c.name, n)
	}
}

func (c *core) enter(tr *track, what string) {
	c.peak.Max(c.cur.Add(1))
	if c.closed.Load() != 0 {
		c.e.Failf("C26", "%s: %s runs after the state machine was closed", c.name, what)
	}
	if tr.entry.Load() == 0 {
		tr.entry.Add(c.now())
		c.began.Add(1)
	}
}

func (c *core) leave(tr *track) {
	n := c.now()
	tr.exit.Add(n - tr.exit.Load())
	c.cur.Add(-1)
}

func (c *core) route(s int) int { return c.allow[s%len(c.allow)] }

func (c *core) track(d *data) *track {
	if d.G < 0 || d.G >= len(c.tr) || d.I < 0 || d.I >= len(c.tr[d.G]) {
		c.e.Failf("C20 C21", "%s: a stage was given data that is nobody's: %d/%d", c.name, d.G, d.I)
		return &track{}
	}
	return c.tr[d.G][d.I]
}

func (c *core) pre(k int) stagedpipe.PreProcesor[data] {
	return func(r request) request {
		d := &r.Data
		tr := c.track(d)
		c.enter(tr, "a PreProcessor")
		defer c.leave(tr)
		if r.Err != nil {
			c.e.Failf("C21", "%s: a PreProcessor was called with Err set (%v)", c.name, r.Err)
		}
		d.Log = append(d.Log, 100+k)
		prog := c.c.Progs[d.Prog]
		if d.PC < len(prog) && prog[d.PC].PPE == k+1 {
			r.Err = mkErr(max(prog[d.PC].Err, 1), d.G, d.I, d.PC)
		}
		return r
	}
}

func (c *core) exec(s int, r request) request {
	d := &r.Data
	tr := c.track(d)
	c.enter(tr, "a stage")
	defer c.leave(tr)
	tr.execs.Add(1)
	where := engine.S("%s: request %d/%d: stage %d at step %d", c.name, d.G, d.I, s, d.PC)
	if r.Err != nil {
		c.e.Failf("C21", "%s: called with Err set (%v)", where, r.Err)
	}
	if r.Next != nil {
		c.e.Failf("C21", "%s: Next was not reset", where)
	}
	if r.Ctx == nil || tagOf(r.Ctx) != any(d.G*1000+d.I) {
		c.e.Failf("C20 C21 C25", "%s: the context is not that of the request", where)
		return r
	}
	if ctxNOf(r.Ctx) != d.CtxN {
		c.e.Failf("C21", "%s: the context is not the one that the stage before set", where)
	}
	prog := c.c.Progs[d.Prog]
	if d.PC >= len(prog) || d.PC < 0 || d.PC > 0 && c.route(prog[d.PC].S) != s || d.PC == 0 && s != 0 {
		c.e.Failf("C21", "%s: executed although it is not the stage named next", where)
		return r
	}
	st := prog[d.PC]
	d.Log = append(d.Log, s)
	if a := tr.canc.Load(); c.e.Exact() && a != 0 && c.now() > a {
		c.e.Failf("C25", "%s: executed although the context of the request had been cancelled before", where)
	}
	if c.rec != nil {
		if sp := spans.From(r.Ctx); sp == nil || sp == c.rec.Root || sp.Ended() != 0 {
			c.e.Failf("C30", "%s: the stage does not run under a span of its own", where)
		} else if p := sp.Parent; p == nil || p == c.rec.Root || p.Ended() != 0 {
			c.e.Failf("C30", "%s: the span of the stage is not inside that of a request", where)
		} else {
			tr.mu.Lock()
			if tr.span == nil {
				tr.span = p
			}
			if tr.span != p {
				c.e.Failf("C30", "%s: the span of the stage is not inside that of its request", where)
			}
			tr.mu.Unlock()
		}
		r.Event("harness event", "k", 1)
	}
	if c.c.Stats {
		c.look(true)
	}
	if c.meet != nil && d.PC == 0 {
		switch k := int(c.met.Add(1)); {
		case k < c.n:
			<-c.meet
		case k == c.n:
			close(c.meet)
		}
	}
	engine.DoWork(st.Work)
	if st.Canc {
		c.cancel(d.G, d.I)
	}
	if st.NewC != 0 {
		d.CtxN++
		r.Ctx = context.WithValue(r.Ctx, ctxN{}, d.CtxN)
		if st.NewC == 2 {
			var stop context.CancelFunc
			r.Ctx, stop = context.WithCancel(r.Ctx)
			c.mark(d.G, d.I)
			stop()
		}
	}
	d.PC++
	if d.PC < len(prog) {
		r.Next = c.stages[c.route(prog[d.PC].S)]
	}
	if st.Err != 0 {
		r.Err = mkErr(st.Err, d.G, d.I, d.PC-1)
		if !st.Name {
			r.Next = nil
		}
	}
	return r
}

// look checks the Stats at any moment.
func (c *core) look(inside bool) {
	began := c.began.Load()
	s := c.p.Stats()
	switch {
	case s.Running < 0 || int(s.Running) > c.n:
		c.e.Failf("C27", "%s: Stats.Running is %d with %d stages", c.name, s.Running, c.n)
	case inside && s.Running < 1:
		c.e.Failf("C27", "%s: Stats.Running is %d while a stage is being executed", c.name, s.Running)
	case s.Completed < 0:
		c.e.Failf("C27", "%s: Stats.Completed is %d", c.name, s.Completed)
	}
	_ = began
}

// model says what happens to a request whose context stays live: what its stages log and its error.
func (c *core) model(g, i, prog int, live bool) (log []int, cyclic, cancelled bool, errPC int) {
	seen := map[int]bool{}
	errPC = -1
	p := c.c.Progs[prog]
	for pc, s := range p {
		st := 0
		if pc > 0 {
			st = c.route(s.S)
		}
		if cancelled {
			return
		}
		if c.cf.DAG && seen[st] {
			return log, true, cancelled, errPC
		}
		seen[st] = true
		for k := 0; k < c.cf.PP; k++ {
			log = append(log, 100+k)
			if s.PPE == k+1 {
				return log, false, cancelled, pc
			}
		}
		log = append(log, st)
		if s.Err != 0 {
			return log, false, cancelled, pc
		}
		if (s.Canc || s.NewC == 2) && pc < len(p)-1 {
			cancelled = true
		}
	}
	return
}

func newCore(e *engine.Env, name string, c *flowCase, cf conf, t0 time.Time) *core {
	k := &core{e: e, name: name, c: c, cf: cf, t0: t0}
	k.allow, k.n = stagesOf(cf)
	k.n *= cf.Pipes
	sm, _ := machine(cf.Kind, k)
	x, y, z := &s1{k}, s2{k}, &s3{k}
	k.stages[9] = func(r request) request { return k.exec(9, r) }
	k.stages[6], k.stages[7], k.stages[8] = x.X, y.Y, y.Z
	k.stages[10], k.stages[11], k.stages[12], k.stages[13] = z.Start, z.A, z.X, z.E
	copy(k.stages[14:], (&s4{k}).all())
	var opts []stagedpipe.Option[data]
	if cf.DAG {
		opts = append(opts, stagedpipe.DAG[data]())
	}
	if cf.Ordered {
		opts = append(opts, stagedpipe.Ordered[data]())
	}
	if cf.Count {
		var objs []any
		for i, o := range []any{x, y, nil, z} {
			if cf.Subs&(1<<i) != 0 && o != nil {
				objs = append(objs, o)
			}
		}
		if len(objs) == 3 { // Options add up.
			opts = append(opts, stagedpipe.CountSubStages[data](objs[2]))
			objs = objs[:2]
		}
		if len(objs) > 0 {
			opts = append(opts, stagedpipe.CountSubStages[data](objs...))
		}
	}
	if cf.Warn != 0 {
		opts = append(opts, stagedpipe.DelayWarning[data](time.Duration(cf.Warn)))
	}
	// Half of the PreProcessors in one option, the others in options of their own.
	var pps []stagedpipe.PreProcesor[data]
	for i := 0; i < cf.PP/2; i++ {
		pps = append(pps, k.pre(i))
	}
	if len(pps) > 0 {
		opts = append(opts, stagedpipe.PreProcessors(pps...))
	}
	for i := cf.PP / 2; i < cf.PP; i++ {
		opts = append(opts, stagedpipe.PreProcessors(k.pre(i)))
	}
	var err error
	k.p, err = stagedpipe.New(name, cf.Pipes, sm, opts...)
	if err != nil {
		e.Failf("C33 C20", "%s: New: %v", name, err)
		return nil
	}
	for _, g := range c.Groups {
		var l []*track
		for range g.Reqs {
			l = append(l, &track{})
		}
		k.tr = append(k.tr, l)
	}
	return k
}

func runFlow(e *engine.Env, c flowCase) {
	c.Groups = append([]group(nil), c.Groups...)
	for i := range c.Groups {
		g := &c.Groups[i]
		e.LabelIf(g.Rep > 0, "thousands of requests")
		e.Allow(g.Rep * 5000)
		g.Reqs = append(append([]req(nil), g.Reqs...), make([]req, g.Rep)...)
	}
	e.Slack = 2 * time.Hour
	if large(&c) {
		e.Slack = 200 * time.Hour // The delays add up.
	}
	if hours(&c) {
		e.Slack = 20000 * time.Hour
	}
	e.LeakTag = "C26"
	lines.reset()
	t0 := time.Now()
	a := newCore(e, "pipelines 1", &c, c.A, t0)
	if a == nil {
		return
	}
	var b *core
	if c.B != nil {
		if b = newCore(e, "pipelines 2", &c, *c.B, t0); b == nil {
			return
		}
	}
	var recs []*spans.Recorder
	base := context.Background()
	if c.Trace {
		a.rec, base = spans.New(base)
		recs = append(recs, a.rec)
		if b != nil { // With a span of its own.
			b.rec, _ = spans.New(base)
			recs = append(recs, b.rec)
		}
	}
	if c.Meet {
		a.meet = make(chan struct{})
	}
	cancels := make([][]context.CancelFunc, len(c.Groups))
	for g := range c.Groups {
		cancels[g] = make([]context.CancelFunc, len(c.Groups[g].Reqs))
	}
	markReq := func(g, i int) {
		for _, k := range []*core{a, b} {
			if k != nil {
				if tr := k.tr[g][i]; tr.canc.Load() == 0 {
					tr.canc.Add(k.now())
				}
			}
		}
	}
	cancelReq := func(g, i int) {
		markReq(g, i)
		cancels[g][i]()
	}
	a.cancel, a.mark = cancelReq, markReq
	if b != nil {
		b.cancel, b.mark = cancelReq, markReq
	}
	stop := make(chan struct{})
	defer close(stop)
	if c.Stats {
		for _, k := range []*core{a, b} {
			if k == nil {
				continue
			}
			go func() {
				var last int64
				var before stagedpipe.Stats
				for wait := time.Duration(1); wait < time.Hour; wait += wait/8 + 1 {
					s := k.p.Stats()
					// Time only passes when everything waits, so that values that stay are not ones in the middle of a change.
					if in := s.IngestStats; e.Exact() && s == before {
						switch {
						case s.Completed > 0 && (s.Min > s.Avg || s.Avg > s.Max):
							e.Failf("C27", "%s: Stats that contradict themselves while requests are processed: %+v", k.name, s)
						case s.Completed+s.Running > 0 && (in.Min > in.Avg || in.Avg > in.Max):
							e.Failf("C27", "%s: IngestStats that contradict themselves while requests are processed: %+v", k.name, s)
						}
						e.LabelIf(s.Running > 0 && s.Completed > 0, "statistics while working")
					}
					before = s
					if s.Completed < last {
						e.Failf("C27", "%s: Stats.Completed went from %d to %d", k.name, last, s.Completed)
					}
					last = s.Completed
					k.look(false)
					select {
					case <-stop:
						return
					case <-time.After(wait):
					}
				}
			}()
		}
	}
	var submits sync.WaitGroup // for the end of all Submit calls on a
	submits.Add(len(c.Groups))
	var done sync.WaitGroup
	done.Add(len(c.Groups))
	for g := range c.Groups {
		go func() {
			defer done.Done()
			runGroup(e, &c, a, b, g, base, cancels[g], cancelReq, &submits)
		}()
	}
	// Close while requests are still being processed, or after everything.
	closedA := make(chan struct{})
	if c.Early {
		go func() {
			submits.Wait()
			a.p.Close()
			close(closedA)
		}()
	}
	all := engine.Go(done.Wait)
	if !e.Until(all) {
		tag := "C20 C22 C26" + lostTags(&c, a, b)
		if c.Meet && int(a.met.Load()) < a.n {
			tag = "C24"
		}
		e.Failf(tag, "the groups do not come to their end although all output is taken (%s)", stuck(a, b))
		e.IgnoreLeaks = true
		return
	}
	<-all
	took := int64(time.Since(t0))
	if c.Early {
		<-closedA
	} else {
		a.p.Close()
	}
	if b != nil {
		b.p.Close()
	}
	e.Settle()
	for _, k := range []*core{a, b} {
		if k == nil {
			continue
		}
		if n := k.closed.Load(); n != 1 {
			e.Failf("C26", "%s: after Close, with everything processed, the state machine was closed %d times", k.name, n)
		}
		verify(e, &c, k, k == b)
	}
	for i, rec := range recs {
		groupSpans(e, []*core{a, b}[i])
		if s := rec.Bad(); s != "" {
			e.Failf("C30", "%s", s)
		}
		if n, names := rec.Open(); n > 0 {
			e.Failf("C30", "after everything was processed and closed %d spans have not been ended:%s", n, names)
		}
		e.Label("traced")
	}
	nreq := 0
	for _, g := range c.Groups {
		nreq += len(g.Reqs)
	}
	if d := lines.delays(); c.A.Warn == 0 && (c.B == nil || c.B.Warn == 0) && d != 0 {
		e.Failf("C29", "%d warnings of delays although none were asked for", d)
	}
	if e.Exact() {
		checkWarn(e, &c, a, b, took)
	}
	if nreq >= 2 && (len(c.Groups) > 1 || len(c.Progs) > 1) || c.Meet {
		e.NonTrivial()
	}
	e.LabelIf(c.A.DAG, "DAG")
	e.LabelIf(c.A.Ordered, "Ordered")
	e.LabelIf(c.A.Warn != 0, "DelayWarning")
	e.LabelIf(b != nil, "chained")
	e.LabelIf(c.Meet, "all stages active at once")
	e.LabelIf(c.Early, "closed while working")
	e.LabelIf(len(c.Groups) > 1, "several groups")
	for _, g := range c.Groups {
		e.LabelIf(g.Win > 0 && len(g.Reqs) > g.Win, "requests that wait for others to come out")
	}
	e.LabelIf(nreq > 50, "more than 50 requests")
}

// groupSpans checks that every group has a span of its own, which at least its first request is inside of.
func groupSpans(e *engine.Env, k *core) {
	seen := map[*spans.Span]int{}
	for g, l := range k.tr {
		all, own := len(l) > 0, (*spans.Span)(nil)
		for _, tr := range l {
			if all = all && tr.err == nil && tr.span != nil; !all {
				break
			}
			if p := tr.span.Parent; p != nil && p != k.rec.Root {
				own = p
			}
		}
		if !all {
			continue
		}
		if own == nil {
			e.Failf("C30", "%s: group %d has no span that any of its requests is inside of", k.name, g)
		} else if o, ok := seen[own]; ok {
			e.Failf("C30", "%s: groups %d and %d have the same span", k.name, o, g)
		}
		seen[own] = g
		e.Label("span of a group")
	}
}

// lostTags names the properties that promise that what has not come out comes out.
func lostTags(c *flowCase, ks ...*core) string {
	m := map[string]bool{"C28": len(c.Groups) > 1}
	for _, k := range ks {
		if k == nil {
			continue
		}
		m["C29"] = m["C29"] || k.cf.Warn != 0
		m["C30"] = m["C30"] || k.rec != nil
		for g := range k.tr {
			for i, tr := range k.tr[g] {
				if tr.outs.Load() == 0 && tr.refused.Load() == 0 {
					for _, t := range strings.Fields(k.reqTags(c, g, i)) {
						m[t] = true
					}
				}
			}
		}
	}
	tags := ""
	for t, ok := range m {
		if ok {
			tags += " " + t
		}
	}
	return tags
}

// reqTags names the properties that say how this request in particular comes out.
func (k *core) reqTags(c *flowCase, g, i int) string {
	r := c.Groups[g].Reqs[i]
	_, cyclic, canc, errPC := k.model(g, i, r.P, true)
	tags := ""
	if cyclic {
		tags += " C23"
	}
	if errPC >= 0 || r.Ctx == ctxErrSet {
		tags += " C21"
	}
	if canc || r.Ctx != 0 && r.Ctx != ctxErrSet {
		tags += " C25"
	}
	return tags
}

func stuck(ks ...*core) string {
	out := ""
	for _, k := range ks {
		if k == nil {
			continue
		}
		n, m, s := 0, 0, 0
		for _, l := range k.tr {
			for _, tr := range l {
				n++
				if tr.subDone.Load() != 0 {
					s++
				}
				if tr.outs.Load() > 0 {
					m++
				}
			}
		}
		out += fmt.Sprintf("[%s: %d requests, %d submitted, %d given out] ", k.name, n, s, m)
	}
	return out
}

// checkWarn decides the clear cases: a consumer that is always ready, and one that is not there for long.
func checkWarn(e *engine.Env, c *flowCase, a, b *core, took int64) {
	// The last set of Pipelines, if it is the only one that warns.
	k := a
	if b != nil {
		if k = b; c.A.Warn != 0 {
			return
		}
	}
	if k.cf.Warn == 0 {
		return
	}
	quick, total := true, 0
	for _, g := range c.Groups {
		if g.Pause != 0 || g.CWork != 0 {
			quick = false
		}
		ok := true
		for _, r := range g.Reqs {
			ok = ok && r.Ctx == 0 && r.Delay == 0
		}
		if ok {
			total += len(g.Reqs)
		}
	}
	d := lines.delays()
	if took < k.cf.Warn && d > 0 {
		e.Failf("C29", "%d warnings of delays of more than %v although everything took %v", d, time.Duration(k.cf.Warn), time.Duration(took))
	}
	for _, g := range c.Groups {
		e.LabelIf(took < k.cf.Warn && g.Pause > took/2 && len(g.Reqs) > 10, "output held up for less than the delay")
	}
	if quick && d > 0 {
		e.Failf("C29", "%d warnings of delays although the consumers always took the output at once", d)
	}
	e.LabelIf(d > 0, "delay reported")
	if len(c.Groups) != 1 || c.Groups[0].Win > 0 || c.Groups[0].CWork > 4 || c.Meet || k.cf.Ordered || c.A.Ordered { // Sorting can take up any number of requests.
		return
	}
	g := c.Groups[0]
	// All the work is done within a few ms, unless the output is stuck.
	_, n := stagesOf(c.A)
	room := 3*c.A.Pipes*n + 20
	if c.B != nil {
		if failing(c) || c.A.DAG { // These do not get to the second Pipelines.
			return
		}
		_, n = stagesOf(*c.B)
		room += 3*c.B.Pipes*n + 20
	}
	if g.Pause <= k.cf.Warn+int64(500*time.Millisecond) || total != len(g.Reqs) || 2*workOf(c)*int64(total) >= int64(100*time.Millisecond) {
		return
	}
	for _, st := range a.stalls {
		if total-int(st.read) <= room {
			continue
		}
		if st.warn == 0 {
			e.Failf("C29", "no warning although the output was not taken for %v with DelayWarning(%v) [%v of %d]", time.Duration(g.Pause), time.Duration(k.cf.Warn), a.stalls, total)
		}
		e.Label("delay that must be reported")
	}
}

// failing tells whether a stage can fail.
func failing(c *flowCase) bool {
	for _, p := range c.Progs {
		for _, s := range p {
			if s.Err != 0 || s.PPE != 0 || s.Canc || s.NewC != 0 {
				return true
			}
		}
	}
	return false
}

// workOf bounds the work of one request.
func workOf(c *flowCase) int64 {
	var m int64
	for _, p := range c.Progs {
		var w int64
		for _, s := range p {
			w += []int64{0, 1, 3, 10, 100, 1000, 1e6, 11e8, 12e10, 108e11}[min(max(s.Work, 0), 9)]
		}
		m = max(m, w)
	}
	return m
}

func runGroup(e *engine.Env, c *flowCase, a, b *core, g int, base context.Context, cancels []context.CancelFunc, cancelReq func(g, i int), submits *sync.WaitGroup) {
	gr := c.Groups[g]
	time.Sleep(time.Duration(gr.Start))
	rgA := a.p.NewRequestGroup()
	var rgB *stagedpipe.RequestGroup[data]
	if gr.Named {
		rgA.Name = engine.S("group %d", g)
	}
	if b != nil {
		rgB = b.p.NewRequestGroup()
	}
	// What is on its way.
	var window chan struct{}
	if gr.Win > 0 {
		window = make(chan struct{}, gr.Win)
	}
	acquire := func() {
		if window != nil {
			window <- struct{}{}
		}
	}
	release := func() {
		select {
		case <-window:
		default: // What came out was not on its way, which others complain about.
		}
	}
	// submitters
	var left atomic.Int64
	left.Store(int64(gr.Sub))
	subs := make(chan struct{})
	for s := 0; s < gr.Sub; s++ {
		go func() {
			defer func() {
				if left.Add(-1) == 0 {
					close(subs)
				}
			}()
			for i := s; i < len(gr.Reqs); i += gr.Sub {
				r := gr.Reqs[i]
				engine.DoWork(r.Delay)
				ctx, cancelCause := context.WithCancelCause(context.WithValue(base, ctxTag{}, g*1000+i))
				cancel := func() { cancelCause(errCause) }
				cancels[i] = cancel
				tr := a.tr[g][i]
				q := request{Ctx: ctx, Data: data{G: g, I: i, Prog: r.P, Log: make([]int, 0, 8), X: odd(r.Odd)}}
				if r.Next > 0 {
					q.Next = a.stages[a.route(r.Next-1)]
				}
				switch r.Ctx {
				case ctxPre:
					cancelReq(g, i)
				case ctxAt:
					time.AfterFunc(time.Duration(r.At), func() { cancelReq(g, i) })
				case ctxDeadline:
					q.Ctx, _ = context.WithTimeout(ctx, time.Duration(r.At))
					tr.canc.Add(a.now() + r.At)
					if b != nil {
						b.tr[g][i].canc.Add(b.now() + r.At)
					}
				case ctxErrSet:
					q.Err = errPre
				case ctxNil:
					q.Ctx = nil
				}
				acquire()
				tr.sub = a.now()
				tr.subCal = e.Seq()
				if r.Ctx == ctxNil {
					// Either an error or a panic is documented.
					func() {
						defer func() {
							if p := recover(); p != nil {
								tr.err = fmt.Errorf("panic: %v", p)
							}
						}()
						tr.err = rgA.Submit(q)
					}()
					if tr.err == nil {
						e.Failf("C20", "a request without a context was accepted")
					}
				} else {
					tr.err = rgA.Submit(q)
				}
				tr.subRet = e.Seq()
				tr.subEnd = a.now()
				tr.subDone.Add(1)
				if tr.err != nil {
					tr.refused.Add(1)
					release()
				}
				if at := tr.canc.Load(); at != 0 && e.Exact() && tr.subEnd > max(at, tr.sub)+int64(time.Microsecond) {
					e.Failf("C25", "request %d/%d: Submit returned %v after the context of the request was cancelled", g, i, time.Duration(tr.subEnd-max(at, tr.sub)))
				}
				switch {
				case tr.err == nil || r.Ctx == ctxNil:
				case q.Ctx.Err() == nil:
					e.Failf("C20 C25", "request %d/%d: Submit failed with %q although the context of the request is live", g, i, tr.err)
				case !errors.Is(tr.err, q.Ctx.Err()):
					e.Failf("C25", "request %d/%d: the context was cancelled (%v) and Submit returned %q", g, i, q.Ctx.Err(), tr.err)
				}
			}
		}()
	}
	closed := make(chan struct{})
	go func() {
		<-subs
		submits.Done()
		rgA.Close()
		close(closed)
	}()
	take := func(k *core, r request) *track {
		d := &r.Data
		if d.G != g || d.I < 0 || d.I >= len(gr.Reqs) {
			e.Failf("C20 C28", "%s: group %d was given the request %d/%d of another group", k.name, g, d.G, d.I)
			return nil
		}
		tr := k.tr[g][d.I]
		if tr.outs.Add(1) > 1 {
			e.Failf("C20", "%s: request %d/%d came out more than once", k.name, g, d.I)
			return nil
		}
		tr.out = r
		tr.log = append([]int{}, d.Log...)
		return tr
	}
	// The first one has been taken out of the channel when it is stalled.
	hold := func(n int64) {
		if d := n - int64(gr.Stall); d == 0 || gr.Every > 0 && d > 0 && d%int64(gr.Every) == 0 {
			w := lines.delays()
			time.Sleep(time.Duration(gr.Pause))
			if g == 0 {
				a.stalls = append(a.stalls, stall{n, lines.delays() - w})
			}
		}
	}
	if b == nil {
		hold(0)
		n := int64(0)
		for r := range rgA.Out() {
			hold(n + 1)
			if tr := take(a, r); tr != nil {
				n++
				tr.outSeq = n
			}
			release()
			engine.DoWork(gr.CWork)
		}
	} else {
		sec := make(chan struct{})
		go func() {
			defer close(sec)
			hold(0)
			var n2 int64
			for r := range rgB.Out() {
				hold(n2 + 1)
				if tr := take(b, r); tr != nil {
					n2++
					tr.outSeq = n2
				}
				release()
				engine.DoWork(gr.CWork)
			}
		}()
		n1 := int64(0)
		for r := range rgA.Out() {
			tr := take(a, r)
			if tr == nil {
				continue
			}
			n1++
			tr.outSeq = n1
			if r.Err != nil {
				release()
				continue
			}
			// What comes out of the first goes into the second.
			i := r.Data.I
			r.Data.PC, r.Data.Log = 0, make([]int, 0, 8)
			t2 := b.tr[g][i]
			if b.rec != nil {
				r.Ctx = b.rec.Put(r.Ctx)
			}
			t2.sub = b.now()
			t2.subCal = e.Seq()
			t2.err = rgB.Submit(r)
			t2.subRet = e.Seq()
			if t2.err != nil {
				t2.refused.Add(1)
				release()
			}
			if t2.err != nil && r.Ctx.Err() == nil {
				e.Failf("C20 C25", "request %d/%d: Submit to the second Pipelines failed with %q although the context of the request is live", g, i, t2.err)
			}
		}
		rgB.Close()
		<-sec
	}
	<-closed
}

// verify compares what happened in one set of Pipelines with the model.
func verify(e *engine.Env, c *flowCase, k *core, second bool) {
	accepted := 0
	exact := e.Exact()
	var runSum, ingSum int64
	var minRun, maxRun, minIng, maxIng int64 = 1 << 62, 0, 1 << 62, 0
	cyc := 0
	for g := range k.tr {
		for i, tr := range k.tr[g] {
			r := c.Groups[g].Reqs[i]
			name := engine.S("%s: request %d/%d", k.name, g, i)
			if tr.subRet == 0 {
				if tr.outs.Load() > 0 || tr.execs.Load() > 0 {
					e.Failf("C20", "%s: was processed without having been submitted", name)
				}
				continue
			}
			if tr.err != nil {
				if n := tr.outs.Load(); n > 0 {
					e.Failf("C20 C25", "%s: Submit failed (%v) and the request came out nevertheless", name, tr.err)
				}
				if n := tr.execs.Load(); n > 0 {
					e.Failf("C20 C25", "%s: Submit failed (%v) and %d stages were executed nevertheless", name, tr.err, n)
				}
				continue
			}
			accepted++
			if tr.outs.Load() != 1 {
				e.Failf("C20 C22 C28"+k.reqTags(c, g, i), "%s: was submitted and came out %d times", name, tr.outs.Load())
				continue
			}
			q := tr.out
			nst := 0
			for _, s := range tr.log {
				if s < 100 {
					nst++
				}
			}
			if int64(nst) != tr.execs.Load() {
				e.Failf("C20 C21", "%s: %d stages were executed for it, %d of them on the request that came out", name, tr.execs.Load(), nst)
			}
			if tr.entry.Load() == 0 {
				exact = false
			} else {
				run, ing := tr.exit.Load()-tr.entry.Load(), tr.entry.Load()-tr.sub
				runSum += run
				ingSum += ing
				minRun, maxRun = min(minRun, run), max(maxRun, run)
				minIng, maxIng = min(minIng, ing), max(maxIng, ing)
			}
			want, cyclic, canc, errPC := k.model(g, i, r.P, true)
			if cyclic {
				cyc++
			}
			if q.Ctx == nil || tagOf(q.Ctx) != any(g*1000+i) || ctxNOf(q.Ctx) != q.Data.CtxN {
				e.Failf("C20 C21", "%s: came out without its context", name)
				continue
			}
			if k.rec != nil {
				if spans.From(q.Ctx) != k.rec.Root {
					e.Failf("C30", "%s: came out with a context that does not have the caller's span", name)
				}
				if tr.span != nil && (tr.span.Status() == codes.Error) != (q.Err != nil) {
					e.Failf("C30", "%s: came out with the error %v, and its span has the status %v", name, q.Err, tr.span.Status())
				}
			}
			async := r.Ctx == ctxPre || r.Ctx == ctxAt || r.Ctx == ctxDeadline || second && tr.canc.Load() != 0
			failed := errPC >= 0 && same(tr.log, want) && sameErr(q.Err, mkErr(max(c.Progs[r.P][errPC].Err, 1), g, i, errPC))
			if async && !failed && q.Err != nil && q.Ctx.Err() != nil && errors.Is(q.Err, q.Ctx.Err()) && !stagedpipe.IsErrCyclic(q.Err) {
				// Cancelled on the way: some whole stages were executed.
				if len(tr.log) > len(want) || !same(tr.log, want[:len(tr.log)]) {
					e.Failf("C21 C25", "%s: cancelled, with the stages %v, which are no beginning of %v", name, tr.log, want)
				} else if len(tr.log) > 0 && tr.log[len(tr.log)-1] >= 100 {
					e.Failf("C25", "%s: cancelled between a PreProcessor and its stage: %v", name, tr.log)
				}
				e.Label("cancelled on the way")
				continue
			}
			if r.Ctx == ctxPre && !second {
				e.Failf("C25", "%s: the context was cancelled before Submit, and the request came out with the error %v and stages %v", name, q.Err, tr.log)
				continue
			}
			if r.Ctx == ctxErrSet {
				if q.Err != errPre || len(tr.log) != 0 {
					e.Failf("C21", "%s: was submitted with Err set and came out with the error %v and stages %v", name, q.Err, tr.log)
				}
				continue
			}
			and := ""
			if async {
				and = " C25"
			}
			if !same(tr.log, want) {
				e.Failf("C21 C23"+and, "%s: executed %v (PreProcessors are 100 and above), want %v; error %v", name, tr.log, want, q.Err)
				continue
			}
			switch {
			case errPC >= 0 && !failed:
				e.Failf("C21"+and, "%s: step %d failed, and the request came out with the error %v", name, errPC, q.Err)
			case errPC >= 0:
				e.Label("stage failed")
			case cyclic:
				if !stagedpipe.IsErrCyclic(q.Err) {
					e.Failf("C23"+and, "%s: a stage came up for the second time, and the request came out with the error %v", name, q.Err)
				}
				e.Label("cycle")
			case stagedpipe.IsErrCyclic(q.Err):
				e.Failf("C23", "%s: cyclic error %q although no stage came up twice, or DAG was not given", name, q.Err)
			case canc:
				if !errors.Is(q.Err, context.Canceled) {
					e.Failf("C25", "%s: a stage cancelled the context, and the request came out with the error %v", name, q.Err)
				}
				e.Label("cancelled by a stage")
			case q.Err != nil:
				if errors.Is(q.Err, context.Canceled) || errors.Is(q.Err, context.DeadlineExceeded) {
					and = " C25"
				}
				e.Failf("C20 C21"+and, "%s: came out with the error %q although nothing failed", name, q.Err)
			}
		}
		if k.cf.Ordered {
			order(e, k, g)
		}
	}
	if n := k.peak.Load(); int(n) > k.n {
		e.Failf("C24", "%s: %d stages were active at once, with %d pipelines of %d stages", k.name, n, k.cf.Pipes, k.n/k.cf.Pipes)
	}
	// Statistics.
	s := k.p.Stats()
	if s.Running != 0 {
		e.Failf("C27", "%s: Stats.Running is %d after everything was processed", k.name, s.Running)
	}
	if int(s.Completed) != accepted {
		e.Failf("C27", "%s: Stats.Completed is %d after %d requests", k.name, s.Completed, accepted)
	}
	in := s.IngestStats
	if s.Min > s.Avg || s.Avg > s.Max || in.Min > in.Avg || in.Avg > in.Max || s.Min < 0 || in.Min < 0 {
		e.Failf("C27", "%s: Stats that contradict themselves: %+v", k.name, s)
	}
	if accepted == 0 && s != (stagedpipe.Stats{}) {
		e.Failf("C27", "%s: Stats are %+v and nothing was processed", k.name, s)
	}
	if exact && accepted > 0 {
		n := int64(accepted)
		want := stagedpipe.Stats{Completed: n, Min: time.Duration(minRun), Avg: time.Duration(runSum / n), Max: time.Duration(maxRun),
			IngestStats: stagedpipe.IngestStats{Min: time.Duration(minIng), Avg: time.Duration(ingSum / n), Max: time.Duration(maxIng)}}
		// Waiting for a lock takes a nanosecond or two even if nothing else does.
		near := func(a, b time.Duration) bool { return a-b < 50 && b-a < 50 }
		wi := want.IngestStats
		if s.Completed != n || !near(s.Min, want.Min) || !near(s.Avg, want.Avg) || !near(s.Max, want.Max) ||
			!near(in.Min, wi.Min) || !near(in.Avg, wi.Avg) || !near(in.Max, wi.Max) {
			e.Failf("C27", "%s: Stats are %+v, the requests add up to %+v", k.name, s, want)
		}
		e.LabelIf(minRun > 0, "exact statistics with Min > 0")
		e.LabelIf(minIng > 0, "exact statistics with IngestStats.Min > 0")
	}
	e.LabelIf(cyc > 0 && k.cf.DAG, "DAG with a cycle")
}

// order checks that what was submitted first came out first.
func order(e *engine.Env, k *core, g int) {
	type it struct{ call, ret, out int64 }
	var l []it
	for _, tr := range k.tr[g] {
		if tr.outs.Load() == 1 && tr.err == nil {
			l = append(l, it{tr.subCal, tr.subRet, tr.outSeq})
		}
	}
	for x := range l {
		for y := range l {
			if l[x].ret < l[y].call && l[x].out > l[y].out {
				e.Failf("C22", "%s: in group %d the request that came out as number %d was submitted before the one that came out as number %d", k.name, g, l[x].out, l[y].out)
				return
			}
		}
	}
	if len(l) > 1 {
		e.Label("order of a group checked")
	}
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
