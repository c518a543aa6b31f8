// Package prims holds the units that exercise the prim packages through their public API.
package prims

import (
	"context"
	"errors"
	"io"
	"os"
	"runtime"
	stdslices "slices"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/zzverif/engine"
	"github.com/gostdlib/concurrency/zzverif/spans"
)

func TestZZ(t *testing.T) { engine.Main(t) }

// poolSpec describes the pool a case uses.
type poolSpec struct {
	Kind int // 0 none, 1 limited, 2 pooled
	Size int
	NB   bool // submit with NonBlocking
	Call bool
	Rev  bool // the options in the other order
	Busy bool // all of the pool is taken by others when the call starts
	Meet bool // the functions wait for as many of them as can run at once
}

func drawPool(t *rapid.T) poolSpec {
	p := poolSpec{Kind: engine.Pick(t, "pool", 0, 0, 1, 1, 2, 2)}
	if p.Kind != 0 {
		p.Size = engine.Pick(t, "psize", 1, 1, 1, 2, 3, 4, 7, 16)
		p.NB = engine.Chance(t, "pnb", 25)
		p.Call = engine.Chance(t, "pcall", 30)
		p.Rev = p.Call && p.NB && rapid.Bool().Draw(t, "prev")
		p.Busy = engine.Chance(t, "pbusy", map[bool]int{true: 40, false: 10}[engine.Focus == "C17"])
	}
	p.Meet = engine.Chance(t, "meet", map[bool]int{true: 40, false: 10}[engine.Focus == "C17"])
	return p
}

func (p *poolSpec) norm() {
	engine.Clamp(&p.Kind, 0, 2)
	engine.Clamp(&p.Size, 1, 5000)
	if p.Kind == 0 {
		p.NB, p.Busy = false, false
	}
	if p.Busy {
		engine.Clamp(&p.Size, 1, 200)
	}
}

// meeting returns how many of n functions wait for each other.
func (p poolSpec) meeting(n int) int {
	switch {
	case !p.Meet:
		return 0
	case p.NB:
		return min(n, 300)
	case p.Kind == 0:
		return min(n, runtime.NumCPU())
	}
	return min(n, p.Size)
}

// meet is where n functions wait for each other.
type meet struct {
	n    int
	here engine.Counter
	all  chan struct{}
}

func newMeet(n int) *meet { return &meet{n: n, all: make(chan struct{})} }

func (m *meet) arrive() {
	switch k := int(m.here.Add(1)); {
	case k < m.n:
		<-m.all
	case k == m.n:
		close(m.all)
	}
}

// occupy takes all of the pool until the returned function is called.
func (p poolSpec) occupy(pool goroutines.Pool) (release func()) {
	if !p.Busy {
		return func() {}
	}
	var up sync.WaitGroup
	free := make(chan struct{})
	for i := 0; i < p.Size; i++ {
		up.Add(1)
		if err := pool.Submit(context.Background(), func(context.Context) {
			up.Done()
			<-free
		}); err != nil {
			panic(err)
		}
	}
	up.Wait()
	return sync.OnceFunc(func() { close(free) })
}

// cap is the number of functions that can execute at once, or -1.
func (p poolSpec) cap() int {
	if p.Kind == 0 || p.NB {
		return -1
	}
	return p.Size
}

func (p poolSpec) make() (goroutines.Pool, []goroutines.SubmitOption) {
	var opts []goroutines.SubmitOption
	switch p.Kind {
	case 1:
		q, err := limited.New("", p.Size)
		if err != nil {
			panic(err)
		}
		if p.NB {
			opts = append(opts, limited.NonBlocking())
		}
		if p.Call {
			opts = append(opts, limited.Caller("harness"))
		}
		if p.Rev {
			stdslices.Reverse(opts)
		}
		return q, opts
	case 2:
		q, err := pooled.New("", p.Size)
		if err != nil {
			panic(err)
		}
		if p.NB {
			opts = append(opts, pooled.NonBlocking())
		}
		if p.Call {
			opts = append(opts, pooled.Caller("harness"))
		}
		if p.Rev {
			stdslices.Reverse(opts)
		}
		return q, opts
	}
	return nil, nil
}

func (p poolSpec) String() string { return []string{"no pool", "limited", "pooled"}[p.Kind] }

// Kinds of errors functions return.
const (
	eNil      = 0
	eUnique   = 1 // an error of its own
	eCanceled = 2 // context.Canceled itself
	eDeadline = 3 // context.DeadlineExceeded itself
	eWrapCtx  = 4 // an error that wraps context.Canceled
	eJoined   = 5 // an error made of two
	eShared   = 6 // an error several functions return
	eKnown    = 7 // an error of the standard library that code may be tempted to treat in a special way
	eValue    = 8 // an error that cannot be compared

	maxErr = 8
)

// known are errors with a meaning elsewhere, but none here.
var known = []error{
	io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrNotExist, os.ErrClosed, os.ErrDeadlineExceeded, errors.ErrUnsupported,
	errors.New(""), errors.New("context canceled"), (*nilErr)(nil), timeoutErr{},
}

type nilErr struct{ s string }

func (n *nilErr) Error() string { return "a nil pointer as an error" }

// timeoutErr is temporary and a timeout.
type timeoutErr struct{}

func (timeoutErr) Error() string   { return "timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// valErr is an error that cannot be compared; errors.Is finds it by its mark.
type valErr struct {
	id int
	l  []int
}

type mark struct{ id int }

func (v valErr) Error() string        { return engine.S("harness value error %d", v.id) }
func (v valErr) Is(target error) bool { return target == error(mark{v.id}) }
func (m mark) Error() string          { return engine.S("mark of the harness value error %d", m.id) }

// sameErr compares errors of any kind.
func sameErr(a, b error) bool {
	x, ok := a.(valErr)
	y, ok2 := b.(valErr)
	if ok || ok2 {
		return ok && ok2 && x.id == y.id
	}
	return a == b
}

type myErr struct{ id int }

func (m *myErr) Error() string { return engine.S("harness error %d", m.id) }

var errShared = errors.New("shared harness error")

// mkErr returns the error of the kind and the errors that errors.Is must find in it.
func mkErr(kind, id int) (error, []error) {
	switch kind {
	case eUnique:
		e := &myErr{id}
		return e, []error{e}
	case eCanceled:
		return context.Canceled, nil
	case eDeadline:
		return context.DeadlineExceeded, nil
	case eWrapCtx:
		e := &wrapErr{id, context.Canceled}
		return e, []error{e, context.Canceled}
	case eJoined:
		a, b := &myErr{id}, &myErr{-id - 1}
		e := errors.Join(a, b)
		return e, []error{a, b}
	case eShared:
		return errShared, []error{errShared}
	case eKnown:
		e := known[(id%len(known)+len(known))%len(known)]
		return e, []error{e}
	case eValue:
		return valErr{id: id}, []error{mark{id}}
	}
	return nil, nil
}

type wrapErr struct {
	id int
	in error
}

func (m *wrapErr) Error() string { return engine.S("harness wrapper %d: %v", m.id, m.in) }
func (m *wrapErr) Unwrap() error { return m.in }

// missing returns the first of l that err does not lead to.
func missing(err error, l []error) error {
	if len(l) > 400 { // errors.Is walks the whole chain
		l = append(l[:200:200], l[len(l)-200:]...)
	}
	for _, x := range l {
		if !errors.Is(err, x) {
			return x
		}
	}
	return nil
}

func drawTrace(t *rapid.T) bool {
	return engine.Chance(t, "trace", map[bool]int{true: 90, false: 15}[engine.Focus == "C30"])
}

// inSpan notes if a function does not run under an open span of the operation's own.
func inSpan(ctx context.Context, rec *spans.Recorder, bad *engine.Counter) {
	if s := spans.From(ctx); s == nil || s == rec.Root || s.Ended() != 0 {
		bad.Add(1)
	}
}

// checkSpans looks at the spans of an operation that is over.
func checkSpans(e *engine.Env, where string, on bool, rec *spans.Recorder, bad *engine.Counter) {
	if !on {
		return
	}
	if bad.Load() != 0 {
		e.Failf("C30", "%s: %d functions ran outside of an open span of their operation", where, bad.Load())
	}
	if s := rec.Final(); s != "" {
		e.Failf("C30", "%s: %s", where, s)
	}
	e.Label("traced")
}

// gauge measures how many run at once.
type gauge struct{ cur, peak engine.Counter }

func (g *gauge) enter() { g.peak.Max(g.cur.Add(1)) }
func (g *gauge) leave() { g.cur.Add(-1) }

// now is the virtual time since the start of the case.
func since(t0 time.Time) int64 { return int64(time.Since(t0)) }

// hours draws a kind of work that sometimes takes hours, for what gives up after a while.
func hours(t *rapid.T, label string) int {
	if engine.Chance(t, label+"h", 4) {
		return 9
	}
	return engine.Work(t, label)
}
