package queue

import (
	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/queue"
	"github.com/gostdlib/concurrency/zzverif/engine"
)

// turn is so many pushes, and then so many pops.
type turn struct {
	Push, Pop int
}

type bCase struct {
	Bound bool // the queue is as big as what is ever in it, else unbounded
	Turns []turn
	Prod  int // then so many goroutines
	Each  int // push so many values each
	Cons  int // and so many others pop until the queue has ended
}

func init() {
	engine.Add(engine.Unit{
		Name: "queue.backlog",
		Rule: "turns of pushes and pops by one goroutine, compared with a slice, then producers and consumers at once, with up to thousands of values in the queue; " +
			"non-trivial: 300 or more values are in the queue at a time, or go through it at once",
		Files: []string{"internal/queue/"},
	}, func(t *rapid.T) bCase {
		size := func(label string) int {
			if engine.Chance(t, "huge?", 2) {
				return engine.Huge(t, label+".huge", 40000)
			}
			return engine.Size(t, label, 0, 1100)
		}
		c := bCase{
			Bound: rapid.Bool().Draw(t, "bound"),
			Prod:  engine.Pick(t, "prod", 0, 1, 1, 2, 3),
			Cons:  engine.Pick(t, "cons", 1, 1, 2, 3),
		}
		for i, n := 0, engine.Pick(t, "turns", 0, 1, 1, 2, 3, 10); i < n; i++ {
			c.Turns = append(c.Turns, turn{size("push"), size("pop")})
		}
		if engine.Chance(t, "huge?", 2) {
			c.Each = engine.Huge(t, "each.huge", 10000)
		} else {
			c.Each = engine.Size(t, "each", 0, 600)
		}
		return c
	}, func(c *bCase) {
		engine.Clamp(&c.Prod, 0, 4)
		engine.Clamp(&c.Cons, 1, 4)
		engine.Clamp(&c.Each, 0, 70000)
		if len(c.Turns) > 20 {
			c.Turns = c.Turns[:20]
		}
		for i := range c.Turns {
			engine.Clamp(&c.Turns[i].Push, 0, 70000)
			engine.Clamp(&c.Turns[i].Pop, 0, 70000)
		}
	}, runBacklog)
}

func runBacklog(e *engine.Env, c bCase) {
	top, n := 0, 0
	for _, t := range c.Turns {
		n += t.Push
		top = max(top, n)
		n -= min(n, t.Pop)
	}
	size := 0
	if c.Bound {
		size = max(top, n+1)
	}
	q := queue.New[int](size)
	first, next := 0, 0 // what is in the queue
	done := engine.Go(func() {
		for i, t := range c.Turns {
			for k := 0; k < t.Push; k++ {
				q.Push(next)
				next++
			}
			for k := 0; k < t.Pop && first < next; k++ {
				v, ok := q.Pop()
				if !ok || v != first {
					e.Failf("C31", "turn %d: Pop returned %d, %v; want %d of the %d values in the queue", i, v, ok, first, next-first)
					return
				}
				first++
			}
		}
	})
	if !e.Until(done) {
		e.Failf("C31", "after %d pushes and %d pops an operation does not return, though there was room for %d values", next, first, size)
		return
	}
	if <-done; e.Failed() {
		return
	}
	// Values of producer p are from base+p*each on.
	base := next
	var prods, cons []<-chan struct{}
	for p := 0; p < c.Prod; p++ {
		p := p
		prods = append(prods, engine.Go(func() {
			for k := 0; k < c.Each; k++ {
				q.Push(base + p*c.Each + k)
			}
		}))
	}
	got := make([][]int, c.Cons)
	limit := next + c.Prod*c.Each
	for i := range got {
		i := i
		cons = append(cons, engine.Go(func() {
			for len(got[i]) <= limit {
				v, ok := q.Pop()
				if !ok {
					return
				}
				got[i] = append(got[i], v)
			}
		}))
	}
	for i, d := range prods {
		if !e.Until(d) {
			e.Failf("C31", "producer %d of %d does not get to its end, although there are consumers", i, c.Prod)
			return
		}
		<-d
	}
	q.Close()
	for i, d := range cons {
		if !e.Until(d) {
			e.Failf("C31", "consumer %d of %d does not get to its end, although the queue was closed", i, c.Cons)
			return
		}
		<-d
	}
	count := make([]int, limit)
	for i, l := range got {
		last := map[int]int{} // per producer
		for _, v := range l {
			if v < first || v >= limit {
				e.Failf("C31", "Pop returned %d, which is not in the queue (%d to %d are)", v, first, limit-1)
				return
			}
			if count[v]++; count[v] > 1 {
				e.Failf("C31", "%d was popped twice", v)
				return
			}
			p := -1
			if v >= base {
				p = (v - base) / c.Each
			}
			if w, ok := last[p]; ok && w > v {
				e.Failf("C31", "consumer %d got %d after %d, which the same goroutine pushed later", i, v, w)
				return
			}
			last[p] = v
		}
	}
	for v := first; v < limit; v++ {
		if count[v] == 0 {
			e.Failf("C31", "%d was pushed and never popped (%d of %d values came out)", v, len(got), limit)
			return
		}
	}
	if top >= 1000 || c.Prod*c.Each >= 1000 {
		e.Label("thousands of values")
	}
	e.LabelIf(c.Bound, "bounded")
	if top >= 300 || c.Prod*c.Each >= 300 {
		e.NonTrivial()
	}
}
