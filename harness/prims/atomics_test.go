package prims

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/zzverif/engine"
)

// What an operation on the RWValue does.
const (
	rwLoad   = 0
	rwStore  = 1
	rwRep    = 2 // LoadReplace
	rwRepErr = 3 // LoadReplace whose function fails (and returns a value nevertheless)
	rwPanic  = 4 // LoadReplace whose function panics
	rwExit   = 5 // LoadReplace whose function ends its goroutine
	rwZero   = 6 // Store of the zero value
	rwSame   = 7 // LoadReplace that gives back what it got
)

type rwOp struct {
	K    int
	Work int // time spent in the LoadReplacer, or before the operation
	Look int // Loads made by other goroutines while the LoadReplacer runs, which it waits for
	Self bool
}

type rwCase struct {
	Type int // type of the value
	Init bool
	G    [][]rwOp
}

func init() {
	engine.Add(engine.Unit{
		Name:  "rwvalue",
		Rule:  "goroutines that Load, Store and LoadReplace one RWValue, with functions that fail, panic, end their goroutine, take time, or wait for Loads made meanwhile; non-trivial: two or more goroutines and two or more writes",
		Files: []string{"prim/atomics/"},
	}, func(t *rapid.T) rwCase {
		c := rwCase{Type: rapid.IntRange(0, 8).Draw(t, "type"), Init: engine.Chance(t, "init", 50)}
		g := engine.Pick(t, "g", 1, 2, 2, 3, 3, 4, 6, 8)
		for i := 0; i < g; i++ {
			var ops []rwOp
			n := engine.Pick(t, "n", 1, 2, 3, 3, 5, 8)
			for j := 0; j < n; j++ {
				ops = append(ops, rwOp{
					K:    engine.Pick(t, "k", 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7),
					Work: engine.Pick(t, "w", 0, 0, 0, 0, 1, 2, 3),
					Look: engine.Pick(t, "look", 0, 0, 0, 1, 2),
					Self: engine.Chance(t, "self", 20),
				})
			}
			c.G = append(c.G, ops)
		}
		return c
	}, func(c *rwCase) {
		engine.Clamp(&c.Type, 0, 8)
		if len(c.G) > 8 {
			c.G = c.G[:8]
		}
		for i := range c.G {
			if len(c.G[i]) > 8 {
				c.G[i] = c.G[i][:8]
			}
			for j := range c.G[i] {
				engine.Clamp(&c.G[i][j].K, 0, 7)
				engine.Clamp(&c.G[i][j].Look, 0, 4)
			}
		}
	}, func(e *engine.Env, c rwCase) {
		switch c.Type {
		case 0:
			runRW(e, c, func(id int) int { return id }, func(v int) (int, string) { return v, "" }, func(*int) {})
		case 1: // big enough for a torn read to show
			runRW(e, c, func(id int) [9]int {
				var a [9]int
				for i := range a {
					a[i] = id * (i + 1)
				}
				return a
			}, func(a [9]int) (int, string) {
				for i := range a {
					if a[i] != a[0]*(i+1) {
						return 0, fmt.Sprint("a mixture of two values: ", a)
					}
				}
				return a[0], ""
			}, func(a *[9]int) { a[3]++ })
		case 2: // a string that matches its number
			runRW(e, c, func(id int) string {
				if id == 0 {
					return ""
				}
				return strings.Repeat("x", id)
			}, func(s string) (int, string) { return len(s), "" }, func(s *string) { *s = "other" })
		case 3: // refers to memory written just before the Store
			type box struct{ p *[2]int }
			runRW(e, c, func(id int) box {
				if id == 0 {
					return box{}
				}
				return box{&[2]int{id, -id}}
			}, func(b box) (int, string) {
				if b.p == nil {
					return 0, ""
				}
				if b.p[0] != -b.p[1] {
					return 0, "memory the value refers to is not as it was when it was stored"
				}
				return b.p[0], ""
			}, func(b *box) { b.p = nil })
		case 4: // an interface, whose zero value is nil
			runRW(e, c, func(id int) error {
				if id == 0 {
					return nil
				}
				return &myErr{id}
			}, func(v error) (int, string) {
				if v == nil {
					return 0, ""
				}
				return v.(*myErr).id, ""
			}, func(v *error) { *v = errShared })
		case 5: // values that cannot be compared
			runRW(e, c, func(id int) []int {
				if id == 0 {
					return nil
				}
				return []int{id}
			}, func(v []int) (int, string) {
				if len(v) == 0 {
					return 0, ""
				}
				return v[0], ""
			}, func(v *[]int) { *v = nil })
		case 6:
			runRW(e, c, func(id int) func() int {
				if id == 0 {
					return nil
				}
				return func() int { return id }
			}, func(v func() int) (int, string) {
				if v == nil {
					return 0, ""
				}
				return v(), ""
			}, func(v *func() int) { *v = nil })
		case 7:
			runRW(e, c, func(id int) any {
				if id == 0 {
					return nil
				}
				if id%2 == 0 {
					return map[string]int{"id": id}
				}
				return [1]any{[]int{id}}
			}, func(v any) (int, string) {
				switch v := v.(type) {
				case map[string]int:
					return v["id"], ""
				case [1]any:
					return v[0].([]int)[0], ""
				}
				return 0, ""
			}, func(v *any) { *v = "other" })
		case 8: // large
			runRW(e, c, func(id int) (a [300]int) {
				a[0], a[150], a[299] = id, id, id
				return a
			}, func(a [300]int) (int, string) {
				if a[0] != a[150] || a[0] != a[299] {
					return 0, "a mixture of two values"
				}
				return a[0], ""
			}, func(a *[300]int) { a[150]++ })
		}
	})
}

type rwEvent struct {
	k        int
	id       int // Load: value seen; Store: value stored; LoadReplace: value stored
	in       int // LoadReplace: value passed to the function
	call     int64
	ret      int64
	beg, end int64 // of the function of LoadReplace
	name     string
}

type rwIn struct {
	k, id, in int
}

var rwModel = porcupine.Model{
	Init: func() any { return 0 },
	Step: func(st, in, _ any) (bool, any) {
		i := in.(rwIn)
		switch i.k {
		case rwLoad:
			return i.id == st.(int), st
		case rwStore, rwZero:
			return true, i.id
		case rwRep, rwSame:
			return i.in == st.(int), i.id
		default:
			return i.in == st.(int), st
		}
	},
	Equal: func(a, b any) bool { return a == b },
}

type rwPanicVal struct{ n int }

func runRW[T any](e *engine.Env, c rwCase, mk func(int) T, read func(T) (int, string), spoil func(*T)) {
	var v atomics.RWValue[T]
	evs := make([][]rwEvent, 2*len(c.G)+1)
	next := 1
	if c.Init {
		v.Store(mk(next))
		evs[len(evs)-1] = []rwEvent{{k: rwStore, id: next, call: e.Seq(), ret: e.Seq(), name: "initial Store"}}
		next++
	}
	id := func(where string, x T) int {
		n, bad := read(x)
		if bad != "" {
			e.Failf("C18", "%s: %s", where, bad)
		}
		return n
	}
	var ends []<-chan struct{}
	writes := 0
	for g, ops := range c.G {
		g := g
		base := next
		next += len(ops)
		for _, o := range ops {
			if o.K != rwLoad {
				writes++
			}
		}
		ends = append(ends, engine.Go(func() {
			for j, o := range ops {
				j, o := j, o
				name := engine.S("goroutine %d operation %d", g, j)
				ev := rwEvent{k: o.K, id: base + j, name: name}
				switch o.K {
				case rwLoad:
					engine.DoWork(o.Work)
					ev.call = e.Seq()
					x := v.Load()
					ev.ret = e.Seq()
					ev.id = id(name, x)
					spoil(&x) // it is our copy
				case rwStore, rwZero:
					if o.K == rwZero {
						ev.id = 0
					}
					engine.DoWork(o.Work)
					x := mk(ev.id)
					ev.call = e.Seq()
					v.Store(x)
					ev.ret = e.Seq()
					spoil(&x)
				default:
					if o.K == rwSame {
						ev.id = 0
					}
					bad := fmt.Errorf("harness error %d.%d", g, j)
					calls := 0
					var err error
					lr := func(x T) (T, error) {
						calls++
						ev.beg = e.Seq()
						defer func() { ev.end = e.Seq() }()
						if calls == 1 {
							ev.in = id(name, x)
						} else if calls > 3 {
							return x, bad
						}
						// Loads go on, and as no other writer may do anything, they see the same value.
						for i := 0; i < o.Look; i++ {
							l := rwEvent{k: rwLoad, name: name + " (Load made meanwhile)"}
							d := engine.Go(func() {
								l.call = e.Seq()
								y := v.Load()
								l.ret = e.Seq()
								l.id = id(l.name, y)
							})
							if !e.Until(d) {
								e.Failf("C19", "%s: a Load blocks while a LoadReplace is running", name)
								return x, bad
							}
							<-d
							if l.id != ev.in {
								e.Failf("C18", "%s: LoadReplace was given %d, and a Load made meanwhile returned %d", name, ev.in, l.id)
							}
							evs[2*g+1] = append(evs[2*g+1], l)
							engine.DoWork(o.Work)
						}
						if o.Self {
							if n := id(name, v.Load()); n != ev.in {
								e.Failf("C18", "%s: LoadReplace was given %d, and a Load in its function returned %d", name, ev.in, n)
							}
						}
						engine.DoWork(o.Work)
						in := x
						spoil(&x) // it is our copy
						switch o.K {
						case rwRepErr:
							return mk(1000 + base + j), bad
						case rwPanic:
							panic(rwPanicVal{base + j})
						case rwExit:
							runtime.Goexit()
						case rwSame:
							ev.id = ev.in
							return in, nil
						}
						return mk(ev.id), nil
					}
					returned := false
					var rec any
					d := engine.Go(func() {
						defer func() {
							if o.K == rwPanic {
								rec = recover()
							}
						}()
						ev.call = e.Seq()
						err = v.LoadReplace(lr)
						returned = true
					})
					<-d
					ev.ret = e.Seq()
					switch {
					case calls != 1:
						e.Failf("C19", "%s: LoadReplace called its function %d times", name, calls)
					case o.K == rwRepErr && err != bad:
						e.Failf("C19", "%s: the function failed with %q and LoadReplace returned %v", name, bad, err)
					case o.K == rwPanic && rec != any(rwPanicVal{base + j}):
						e.Failf("C19", "%s: the function panicked and what LoadReplace did was: returned %v, recovered %v", name, returned, rec)
					case o.K == rwExit && returned:
						e.Failf("C19", "%s: the function ended its goroutine and LoadReplace returned %v", name, err)
					case (o.K == rwRep || o.K == rwSame) && err != nil:
						e.Failf("C19", "%s: the function succeeded and LoadReplace returned %v", name, err)
					}
				}
				evs[2*g] = append(evs[2*g], ev)
			}
		}))
	}
	for _, d := range ends {
		if !e.Until(d) {
			e.Failf("C18 C19", "operations block forever")
			return
		}
		<-d
	}
	if e.Failed() {
		return
	}
	// Finally the value is still readable and writable.
	fin := make(chan struct{})
	var last rwEvent
	go func() {
		defer close(fin)
		last = rwEvent{k: rwLoad, call: e.Seq(), name: "last Load"}
		last.id = id(last.name, v.Load())
		last.ret = e.Seq()
		v.Store(mk(5))
		if n := id("after the end", v.Load()); n != 5 {
			e.Failf("C18 C19", "after everything Store(5) and Load gave %d", n)
		}
	}()
	if !e.Until(fin) {
		e.Failf("C19", "the value cannot be written any more after all operations have ended")
		return
	}
	<-fin
	var all []rwEvent
	var hist []porcupine.Operation
	for g, l := range append(evs, []rwEvent{last}) {
		for _, ev := range l {
			all = append(all, ev)
			hist = append(hist, porcupine.Operation{ClientId: g, Input: rwIn{ev.k, ev.id, ev.in}, Call: ev.call, Return: ev.ret})
		}
	}
	res := porcupine.CheckOperationsTimeout(rwModel, hist, time.Duration(0))
	if res == porcupine.Illegal {
		sort.Slice(all, func(i, j int) bool { return all[i].call < all[j].call })
		var b strings.Builder
		for _, ev := range all {
			fmt.Fprintf(&b, "\n  %s: %s in=%d value=%d [%d,%d]", ev.name, []string{"Load", "Store", "LoadReplace", "LoadReplace/error", "LoadReplace/panic", "LoadReplace/Goexit", "Store zero", "LoadReplace/same"}[ev.k], ev.in, ev.id, ev.call, ev.ret)
		}
		tags := "C18"
		for _, ev := range all {
			if ev.k == rwRepErr || ev.k == rwPanic || ev.k == rwExit {
				tags = "C18 C19" // It may have changed the value.
			}
		}
		e.Failf(tags, "the history has no order in which it could have happened step by step:%s", b.String())
	}
	// No other writer does anything while the function of a LoadReplace runs.
	for _, a := range all {
		if a.beg == 0 {
			continue
		}
		for _, b := range all {
			if b.k == rwLoad || b.name == a.name {
				continue
			}
			if b.beg > a.beg && b.beg < a.end {
				e.Failf("C18", "%s: the function of LoadReplace runs while that of %s does", b.name, a.name)
			}
			if b.beg == 0 && b.call > a.beg && b.ret < a.end {
				e.Failf("C18", "%s: a Store was carried out while the function of LoadReplace (%s) was running", b.name, a.name)
			}
		}
	}
	e.LabelIf(!c.Init, "unset at first")
	for _, l := range c.G {
		for _, o := range l {
			e.LabelIf(o.K == rwRepErr, "LoadReplace fails")
			e.LabelIf(o.K == rwPanic || o.K == rwExit, "LoadReplace panics or exits")
			e.LabelIf(o.K >= rwRep && o.Look > 0, "Loads during LoadReplace")
		}
	}
	if len(c.G) >= 2 && writes >= 2 {
		e.NonTrivial()
	}
}
