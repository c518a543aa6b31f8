// Package queue checks the queue of package stagedpipe's internals against a model.
package queue

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/queue"
	"github.com/gostdlib/concurrency/zzverif/engine"
)

func TestZZ(t *testing.T) { engine.Main(t) }

type qCase struct {
	Size  int
	Prod  [][]int // per producer, the work before each Push
	Cons  [][]int // per consumer, the work before each Pop; after these it pops until the queue has ended
	CStop []bool  // the consumer stops after its Pops
	Close int64   // the queue is closed so long after the last Push returned
	Type  int
	Idle  int64 // producer 0 waits so long before its last Push
}

func init() {
	engine.Add(engine.Unit{
		Name: "queue",
		Rule: "producers and consumers at generated speeds on one queue that is unbounded or of generated size, and is closed after the last Push; " +
			"the history is checked against a sequential bounded FIFO queue; non-trivial: two or more goroutines on one side, or a Push that has to wait, or a Pop that has to wait",
		Files: []string{"internal/queue/"},
		Scale: time.Second,
	}, func(t *rapid.T) qCase {
		c := qCase{
			Size: engine.Pick(t, "size", -1, 0, 0, 1, 1, 1, 2, 3, 5, 17, 33, 100),
			Type: engine.Pick(t, "type", 0, 0, 1, 2, 3, 4),
		}
		np := engine.Pick(t, "np", 1, 1, 2, 2, 3, 4)
		for i := 0; i < np; i++ {
			n := engine.Size(t, "n", 0, 30)
			if c.Size > 10 && rapid.Bool().Draw(t, "full") {
				n = rapid.IntRange(c.Size/2, c.Size+10).Draw(t, "n!")
			}
			var l []int
			for j := 0; j < n; j++ {
				l = append(l, engine.Pick(t, "w", 0, 0, 0, 0, 1, 2, 4, 5, 6))
			}
			c.Prod = append(c.Prod, l)
		}
		nc := engine.Pick(t, "nc", 1, 1, 2, 2, 3, 4)
		for i := 0; i < nc; i++ {
			n := engine.Size(t, "n", 0, 30)
			var l []int
			for j := 0; j < n; j++ {
				l = append(l, engine.Pick(t, "w", 0, 0, 0, 0, 1, 2, 4, 5, 6))
			}
			c.Cons = append(c.Cons, l)
			c.CStop = append(c.CStop, engine.Chance(t, "stop", 10))
		}
		if engine.Chance(t, "idle?", 4) {
			c.Idle = engine.Pick(t, "idle", int64(100*time.Millisecond), int64(10*time.Second), int64(2*time.Minute))
		}
		c.Close = engine.Pick(t, "close", int64(0), 0, 0, 1, 100, 1000, int64(time.Millisecond), int64(time.Second))
		return c
	}, func(c *qCase) {
		engine.Clamp(&c.Type, 0, 4)
		engine.Clamp(&c.Size, -5, 1000)
		engine.Clamp(&c.Close, 0, int64(time.Minute))
		engine.Clamp(&c.Idle, 0, int64(5*time.Minute))
		cut := func(l *[][]int) {
			if len(*l) == 0 {
				*l = [][]int{{}}
			}
			if len(*l) > 6 {
				*l = (*l)[:6]
			}
			for i := range *l {
				if len((*l)[i]) > 120 {
					(*l)[i] = (*l)[i][:120]
				}
			}
		}
		cut(&c.Prod)
		cut(&c.Cons)
		for len(c.CStop) < len(c.Cons) {
			c.CStop = append(c.CStop, false)
		}
		c.CStop = c.CStop[:len(c.Cons)]
		c.CStop[0] = false // somebody has to take everything
	}, func(e *engine.Env, c qCase) {
		// A Pop looks again after at most 10 ms.
		e.Slack = 30*time.Second + time.Duration(c.Idle)*2
		switch c.Type {
		case 0:
			run(e, c, func(i int) int { return i }, func(v int) int { return v })
		case 1:
			run(e, c, func(i int) *int { return &i }, func(v *int) int {
				if v == nil {
					return 0
				}
				return *v
			})
		case 3: // An interface, of which one value is nil.
			run(e, c, func(i int) any {
				switch {
				case i == 2:
					return nil
				case i%2 == 0:
					return []int{i}
				}
				return i
			}, func(v any) int {
				switch v := v.(type) {
				case int:
					return v
				case []int:
					return v[0]
				}
				return -2
			})
		case 4: // A pointer that is nil.
			run(e, c, func(i int) *int {
				if i == 2 {
					return nil
				}
				return &i
			}, func(v *int) int {
				if v == nil {
					return -2
				}
				return *v
			})
		case 2:
			run(e, c, func(i int) [5]int { return [5]int{i, i, i, i, i} }, func(v [5]int) int {
				for _, x := range v {
					if x != v[0] {
						return -1
					}
				}
				return v[0]
			})
		}
	})
}

type op struct {
	push      bool
	v         int
	ok        bool
	close     bool
	call, ret int64
	who       int
	at, until time.Time
}

type state struct {
	q      string // of runes
	closed bool
}

func model(size int) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return state{} },
		Step: func(st, in, _ any) (bool, any) {
			s, o := st.(state), in.(op)
			switch {
			case o.close:
				return true, state{s.q, true}
			case o.push:
				if size > 0 && len([]rune(s.q)) >= size {
					return false, s
				}
				return true, state{s.q + string(rune(0x1000+o.v)), s.closed}
			case o.ok:
				r := []rune(s.q)
				if len(r) == 0 || int(r[0])-0x1000 != o.v {
					return false, s
				}
				return true, state{string(r[1:]), s.closed}
			default:
				return s.closed && s.q == "", s
			}
		},
		Equal: func(a, b any) bool { return a == b },
	}
}

func run[T any](e *engine.Env, c qCase, mk func(int) T, read func(T) int) {
	q := queue.New[T](c.Size)
	ops := make([][]op, len(c.Prod)+len(c.Cons)+1)
	next := 1
	var prods, cons []<-chan struct{}
	for i, ws := range c.Prod {
		i, ws, base := i, ws, next
		next += len(ws)
		prods = append(prods, engine.Go(func() {
			for j, w := range ws {
				engine.DoWork(w)
				if i == 0 && j == len(ws)-1 {
					time.Sleep(time.Duration(c.Idle))
				}
				o := op{push: true, v: base + j, who: i}
				t := time.Now()
				v := mk(o.v)
				o.call = e.Seq()
				q.Push(v)
				o.ret = e.Seq()
				o.until = time.Now()
				if time.Since(t) > 0 {
					e.Label("a Push waited")
				}
				ops[i] = append(ops[i], o)
			}
		}))
	}
	total := next - 1
	for i, ws := range c.Cons {
		who := len(c.Prod) + i
		i, ws := i, ws
		pop := func() bool {
			o := op{who: who, call: e.Seq()}
			t := time.Now()
			v, ok := q.Pop()
			o.ret = e.Seq()
			o.v, o.ok = read(v), ok
			if o.v == -2 { // It is nil, which is value 2, or none.
				o.v = 0
				if ok {
					o.v = 2
				}
			}
			o.at, o.until = t, time.Now()
			if !ok && o.v != 0 {
				e.Failf("C31", "Pop returned false with a value (%d)", o.v)
			}
			if ok && time.Since(t) > 0 {
				e.Label("a Pop waited")
			}
			ops[who] = append(ops[who], o)
			return ok
		}
		cons = append(cons, engine.Go(func() {
			ok := true
			for _, w := range ws {
				engine.DoWork(w)
				if ok = pop(); !ok {
					break
				}
			}
			if c.CStop[i] && ok {
				return
			}
			for ok && len(ops[who]) <= total+2 {
				ok = pop()
			}
			// The end is final.
			pop()
		}))
	}
	for i, d := range prods {
		if !e.Until(d) {
			e.Failf("C31", "producer %d does not get to its end, although there are consumers", i)
			return
		}
		<-d
	}
	time.Sleep(time.Duration(c.Close))
	cl := op{close: true, who: len(ops) - 1, call: e.Seq()}
	q.Close()
	cl.ret = e.Seq()
	ops[len(ops)-1] = []op{cl}
	for i, d := range cons {
		if !e.Until(d) {
			e.Failf("C31", "consumer %d does not get to its end, although the queue was closed", i)
			return
		}
		<-d
	}
	var flat []op
	var hist []porcupine.Operation
	pushed, popped := map[int]op{}, map[int]op{}
	for _, l := range ops {
		for _, o := range l {
			flat = append(flat, o)
			hist = append(hist, porcupine.Operation{ClientId: o.who, Input: o, Call: o.call, Return: o.ret})
			switch {
			case o.push:
				pushed[o.v] = o
			case o.ok:
				if p, ok := popped[o.v]; ok {
					e.Failf("C31", "the value %d was popped by goroutine %d and by goroutine %d", o.v, p.who, o.who)
				}
				popped[o.v] = o
			}
		}
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].call < flat[j].call })
	var b strings.Builder
	for _, o := range flat {
		w := "Pop"
		if o.push {
			w = "Push"
		} else if o.close {
			w = "Close"
		}
		fmt.Fprintf(&b, "\n  goroutine %d: %s %d %v [%d,%d]", o.who, w, o.v, o.ok || o.push || o.close, o.call, o.ret)
	}
	// What can be wrong with a history of a queue of distinct values (Henzinger, Sezgin, Vafeiadis 2013).
	for v := 1; v <= total; v++ {
		if _, ok := popped[v]; !ok {
			e.Failf("C31", "the value %d was pushed and never popped:%s", v, b.String())
			return
		}
	}
	for v, o := range popped {
		p, ok := pushed[v]
		if !ok {
			e.Failf("C31", "Pop returned %d, which was never pushed:%s", v, b.String())
			return
		}
		// A Pop that waits looks again every now and then.
		from := o.at
		if p.until.After(from) {
			from = p.until
		}
		if w := o.until.Sub(from); e.Exact() && w > time.Second {
			e.Failf("C31", "Pop returned %d only %v after it was there:%s", v, w, b.String())
			return
		}
		if o.ret < p.call {
			e.Failf("C31", "Pop returned %d before it was pushed:%s", v, b.String())
			return
		}
	}
	for v := 1; v <= total; v++ {
		for w := 1; w <= total; w++ {
			if pushed[v].ret < pushed[w].call && popped[w].ret < popped[v].call {
				e.Failf("C31", "%d was pushed before %d and popped after it:%s", v, w, b.String())
				return
			}
		}
	}
	for _, o := range flat {
		if o.push || o.close || o.ok {
			continue
		}
		if o.ret < cl.call {
			e.Failf("C31", "a Pop reported the end before the queue was closed:%s", b.String())
			return
		}
		for v := 1; v <= total; v++ {
			if o.ret < popped[v].call {
				e.Failf("C31", "a Pop reported the end while %d was in the queue:%s", v, b.String())
				return
			}
		}
	}
	// More than the size is never in the queue, however the operations are ordered.
	if c.Size > 0 {
		for _, o := range flat {
			if !o.push {
				continue
			}
			n := 0
			for _, x := range flat {
				if x.push && x.ret <= o.ret {
					n++
				}
				if x.ok && x.call < o.ret {
					n--
				}
			}
			if n > c.Size {
				e.Failf("C31", "%d values were in the queue of size %d:%s", n, c.Size, b.String())
				return
			}
		}
	}
	// Of all that is wrong together, as far as it can be decided.
	if total <= 12 {
		e.Label("searched for an order of all operations")
		if porcupine.CheckOperationsTimeout(model(c.Size), hist, 0) == porcupine.Illegal {
			e.Failf("C31", "no order of the operations is one of a FIFO queue of size %d:%s", c.Size, b.String())
		}
	}
	e.LabelIf(c.Size > 0, "bounded")
	if total > 0 && (len(c.Prod) > 1 || len(c.Cons) > 1 || c.Size > 0 && c.Size < total) {
		e.NonTrivial()
	}
}
