// Package pipe holds the units that exercise stagedpipe through its public API.
package pipe

import (
	"context"
	"errors"
	"io"
	"log"
	"math"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/zzverif/engine"
)

func TestZZ(t *testing.T) { engine.Main(t) }

// data is what a request carries.
type data struct {
	G, I int
	Prog int
	CtxN int // how often a stage has set another context
	PC   int
	Log  []int
	X    any // of a kind that JSON may not be able to take
}

// odd returns a value of the kind.
func odd(kind int) any {
	switch kind {
	case 1:
		return math.NaN()
	case 2:
		return func() {}
	case 3:
		return make(chan int)
	case 4:
		return "\xff\xfe not UTF-8"
	case 5:
		l := []any{nil}
		l[0] = l // contains itself
		return l
	case 6:
		return map[[2]int]string{{1, 2}: "x"}
	case 7:
		return (*time.Time)(nil)
	case 8:
		return badJSON{}
	}
	return nil
}

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return []byte("{not JSON"), errors.New("no JSON") }

type request = stagedpipe.Request[data]
type stage = stagedpipe.Stage[data]

// logLines counts the lines written to the standard logger.
type logLines struct {
	mu    sync.Mutex
	delay int
}

func (l *logLines) Write(b []byte) (int, error) {
	l.mu.Lock()
	if strings.Contains(string(b), "delay") {
		l.delay++
	}
	l.mu.Unlock()
	return len(b), nil
}

func (l *logLines) reset() { l.mu.Lock(); l.delay = 0; l.mu.Unlock() }

func (l *logLines) delays() int { l.mu.Lock(); defer l.mu.Unlock(); return l.delay }

var lines logLines

func init() {
	log.SetOutput(io.Writer(&lines))
}

// State machines with one to six stages. Helper and quiet are no stages.
type m1 struct{ c *core }

func (m *m1) Start(r request) request { return m.c.exec(0, r) }
func (m *m1) Close()                  { m.c.smClose() }
func (m *m1) Helper(i int) int        { return i }
func (m *m1) quiet(r request) request { return r }
func (m *m1) Wrong(r *request)        {}

type m2 struct{ m1 }

func (m *m2) A(r request) request { return m.c.exec(1, r) }

type m3 struct{ m2 }

func (m *m3) B(r request) request { return m.c.exec(2, r) }

type m4 struct{ m3 }

func (m *m4) C(r request) request { return m.c.exec(3, r) }

type m5 struct{ m4 }

func (m *m5) D(r request) request { return m.c.exec(4, r) }

type m6 struct{ m5 }

func (m *m6) E(r request) request { return m.c.exec(5, r) }

// State machines that are values.
type v1 struct{ c *core }

func (m v1) Start(r request) request { return m.c.exec(0, r) }
func (m v1) Close()                  { m.c.smClose() }
func (m v1) Aaa() error              { return nil }

type v3 struct{ c *core }

func (m v3) Start(r request) request { return m.c.exec(0, r) }
func (m v3) A(r request) request     { return m.c.exec(1, r) }
func (m v3) B(r request) request     { return m.c.exec(2, r) }
func (m v3) Close()                  { m.c.smClose() }

// Objects with further stages.
type s1 struct{ c *core }

func (m *s1) X(r request) request { return m.c.exec(6, r) }
func (m *s1) Other() string       { return "" }

type s2 struct{ c *core }

func (m s2) Y(r request) request { return m.c.exec(7, r) }
func (m s2) Z(r request) request { return m.c.exec(8, r) }

// Stages with the names of those of others.
type s3 struct{ c *core }

func (m *s3) Start(r request) request { return m.c.exec(10, r) }
func (m *s3) A(r request) request     { return m.c.exec(11, r) }
func (m *s3) X(r request) request     { return m.c.exec(12, r) }
func (m *s3) E(r request) request     { return m.c.exec(13, r) }

// Many stages.
type s4 struct{ c *core }

func (m *s4) M00(r request) request { return m.c.exec(14, r) }
func (m *s4) M01(r request) request { return m.c.exec(15, r) }
func (m *s4) M02(r request) request { return m.c.exec(16, r) }
func (m *s4) M03(r request) request { return m.c.exec(17, r) }
func (m *s4) M04(r request) request { return m.c.exec(18, r) }
func (m *s4) M05(r request) request { return m.c.exec(19, r) }
func (m *s4) M06(r request) request { return m.c.exec(20, r) }
func (m *s4) M07(r request) request { return m.c.exec(21, r) }
func (m *s4) M08(r request) request { return m.c.exec(22, r) }
func (m *s4) M09(r request) request { return m.c.exec(23, r) }
func (m *s4) M10(r request) request { return m.c.exec(24, r) }
func (m *s4) M11(r request) request { return m.c.exec(25, r) }
func (m *s4) M12(r request) request { return m.c.exec(26, r) }
func (m *s4) M13(r request) request { return m.c.exec(27, r) }
func (m *s4) M14(r request) request { return m.c.exec(28, r) }
func (m *s4) M15(r request) request { return m.c.exec(29, r) }
func (m *s4) M16(r request) request { return m.c.exec(30, r) }
func (m *s4) M17(r request) request { return m.c.exec(31, r) }
func (m *s4) M18(r request) request { return m.c.exec(32, r) }
func (m *s4) M19(r request) request { return m.c.exec(33, r) }
func (m *s4) M20(r request) request { return m.c.exec(34, r) }
func (m *s4) M21(r request) request { return m.c.exec(35, r) }
func (m *s4) M22(r request) request { return m.c.exec(36, r) }
func (m *s4) M23(r request) request { return m.c.exec(37, r) }
func (m *s4) M24(r request) request { return m.c.exec(38, r) }
func (m *s4) M25(r request) request { return m.c.exec(39, r) }

func (m *s4) all() []stage {
	return []stage{m.M00, m.M01, m.M02, m.M03, m.M04, m.M05, m.M06, m.M07, m.M08, m.M09, m.M10, m.M11, m.M12, m.M13, m.M14, m.M15, m.M16, m.M17, m.M18, m.M19, m.M20, m.M21, m.M22, m.M23, m.M24, m.M25}
}

// Generic state machines.
type g3[T any] struct {
	c *core
	_ T
}

func (m *g3[T]) Start(r request) request { return m.c.exec(0, r) }
func (m *g3[T]) A(r request) request     { return m.c.exec(1, r) }
func (m *g3[T]) B(r request) request     { return m.c.exec(2, r) }
func (m *g3[T]) Close()                  { m.c.smClose() }

type gv2[K comparable, V any] struct{ c *core }

func (m gv2[K, V]) Start(r request) request { return m.c.exec(0, r) }
func (m gv2[K, V]) A(r request) request     { return m.c.exec(1, r) }
func (m gv2[K, V]) Close()                  { m.c.smClose() }

// A state machine that adds a stage to any other.
type i2 struct {
	stagedpipe.StateMachine[data]
	c *core
}

func (m i2) A(r request) request { return m.c.exec(1, r) }

// The Start of the first embedded type is hidden by that of the second.
type other struct{}

func (other) Start(r request) request { panic("not the Start of the state machine") }

type deep struct{ other }

type d3 struct {
	*deep
	v3
}

// An interface of the harness.
type starter interface {
	Start(r request) request
	Close()
}

type i1 struct{ starter }

// Stage 9 is a function of its own.
const nStages = 40

// kinds are the numbers of stages of the kinds of state machines.
var kinds = []int{1, 2, 3, 4, 5, 6, 1, 3, 3, 3, 2, 2, 3, 1}

const nKinds = 14

// machine makes the state machine of kind k (0..5: one to six stages; 6, 7: values with one and three).
func machine(k int, c *core) (sm stagedpipe.StateMachine[data], n int) {
	a := m1{c}
	switch k {
	case 0:
		m := &a
		c.stages[0] = m.Start
		return m, 1
	case 1:
		m := &m2{a}
		c.stages[0], c.stages[1] = m.Start, m.A
		return m, 2
	case 2:
		m := &m3{m2{a}}
		c.stages[0], c.stages[1], c.stages[2] = m.Start, m.A, m.B
		return m, 3
	case 3:
		m := &m4{m3{m2{a}}}
		c.stages[0], c.stages[1], c.stages[2], c.stages[3] = m.Start, m.A, m.B, m.C
		return m, 4
	case 4:
		m := &m5{m4{m3{m2{a}}}}
		c.stages[0], c.stages[1], c.stages[2], c.stages[3], c.stages[4] = m.Start, m.A, m.B, m.C, m.D
		return m, 5
	case 5:
		m := &m6{m5{m4{m3{m2{a}}}}}
		c.stages[0], c.stages[1], c.stages[2], c.stages[3], c.stages[4], c.stages[5] = m.Start, m.A, m.B, m.C, m.D, m.E
		return m, 6
	case 6:
		m := v1{c}
		c.stages[0] = m.Start
		return m, 1
	case 7:
		m := v3{c}
		c.stages[0], c.stages[1], c.stages[2] = m.Start, m.A, m.B
		return m, 3
	case 9:
		m := &g3[string]{c: c}
		c.stages[0], c.stages[1], c.stages[2] = m.Start, m.A, m.B
		return m, 3
	case 10:
		m := gv2[string, []int]{c}
		c.stages[0], c.stages[1] = m.Start, m.A
		return m, 2
	case 11:
		m := i2{v1{c}, c}
		c.stages[0], c.stages[1] = m.Start, m.A
		return m, 2
	case 12:
		m := d3{&deep{}, v3{c}}
		c.stages[0], c.stages[1], c.stages[2] = m.Start, m.A, m.B
		return m, 3
	case 13:
		m := &struct{ *i1 }{&i1{&a}}
		c.stages[0] = m.Start
		return m, 1
	}
	// A value of a type whose methods have pointer receivers, behind a pointer to an embedding type.
	m := &struct{ v3 }{v3{c}}
	c.stages[0], c.stages[1], c.stages[2] = m.Start, m.A, m.B
	return m, 3
}

type ctxTag struct{}

type ctxN struct{}

func ctxNOf(ctx context.Context) int { n, _ := ctx.Value(ctxN{}).(int); return n }

func tagOf(ctx context.Context) any { return ctx.Value(ctxTag{}) }
