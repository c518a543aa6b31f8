// Package registry checks the registry of pools against a model of the pools that are open.
package registry

import (
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/internal/register"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/zzverif/engine"
)

func TestZZ(t *testing.T) { engine.Main(t) }

type rOp struct {
	K    int // 0 New, 1 Close, 2 list, 3 list and stop reading after N
	Kind int
	Name int
	N    int
	Work int
}

type rCase struct {
	Ops [][]rOp // per goroutine
	End bool    // close all at the end before the last listing
}

var names = []string{"alpha", "beta", "gamma", "", "a", "x.y", strings.Repeat("n", 64), strings.Repeat("n", 65), "a.long.name.of.a.pool.to.tell.apart", "a.long.name.of.a.pool.to.tell.apart.from"}

// life is a pool with the times at which it came and went; 0 is not yet.
type life struct {
	p                                  goroutines.Pool
	name                               string
	newCall, newRet, closCall, closRet int64
}

func init() {
	engine.Add(engine.Unit{
		Name: "registry",
		Rule: "goroutines that make, close and list pools (some stop reading a list early), of which every list is compared with the pools that were open while it was made; " +
			"non-trivial: a list was made while some pool was open, and pools came or went meanwhile or before",
		Files: []string{"goroutines/"},
	}, func(t *rapid.T) rCase {
		var c rCase
		ng := engine.Pick(t, "ng", 1, 1, 2, 3, 4)
		for g := 0; g < ng; g++ {
			var l []rOp
			n := engine.Size(t, "n", 1, 25)
			for i := 0; i < n; i++ {
				l = append(l, rOp{
					K:    engine.Pick(t, "k", 0, 0, 0, 1, 2, 2, 3),
					Kind: rapid.IntRange(0, 1).Draw(t, "kind"),
					Name: rapid.IntRange(0, len(names)-1).Draw(t, "name"),
					N:    rapid.IntRange(0, 10).Draw(t, "nn"),
					Work: engine.Work(t, "w"),
				})
			}
			c.Ops = append(c.Ops, l)
		}
		c.End = engine.Chance(t, "end", 50)
		return c
	}, func(c *rCase) {
		if len(c.Ops) > 6 {
			c.Ops = c.Ops[:6]
		}
		for g := range c.Ops {
			if len(c.Ops[g]) > 40 {
				c.Ops[g] = c.Ops[g][:40]
			}
			for i := range c.Ops[g] {
				o := &c.Ops[g][i]
				engine.Clamp(&o.Kind, 0, 1)
				engine.Clamp(&o.Name, 0, len(names)-1)
				engine.Clamp(&o.N, 0, 50)
			}
		}
	}, run)
}

type list struct {
	call, ret int64
	pools     []goroutines.Pool
	whole     bool
	where     string
}

func run(e *engine.Env, c rCase) {
	e.LeakTag = "C34"
	lives := make([][]*life, len(c.Ops))
	lists := make([][]*list, len(c.Ops))
	doList := func(where string, stop int) *list {
		l := &list{where: where, call: e.Seq()}
		ch := register.Pools()
		for len(l.pools) != stop {
			p, ok := <-ch
			if !ok {
				l.whole = true
				break
			}
			l.pools = append(l.pools, p)
		}
		l.ret = e.Seq()
		return l
	}
	var ds []<-chan struct{}
	for g := range c.Ops {
		ds = append(ds, engine.Go(func() {
			for i, o := range c.Ops[g] {
				engine.DoWork(o.Work)
				switch o.K {
				case 0:
					l := &life{newCall: e.Seq()}
					var err error
					if o.Kind == 0 {
						l.p, err = limited.New(names[o.Name], 1+o.N%3)
					} else {
						l.p, err = pooled.New(names[o.Name], 1+o.N%3)
					}
					l.newRet = e.Seq()
					if err != nil {
						e.Failf("C34", "New(%q) failed: %v", names[o.Name], err)
						return
					}
					l.name = l.p.GetName()
					lives[g] = append(lives[g], l)
				case 1:
					for _, l := range lives[g] {
						if l.closCall == 0 {
							l.closCall = e.Seq()
							l.p.Close()
							l.closRet = e.Seq()
							break
						}
					}
				case 2:
					lists[g] = append(lists[g], doList(engine.S("list %d of goroutine %d", i, g), -1))
				case 3:
					lists[g] = append(lists[g], doList(engine.S("list %d of goroutine %d", i, g), o.N%4))
				}
			}
		}))
	}
	for g, d := range ds {
		if !e.Until(d) {
			e.Failf("C34", "goroutine %d does not get to its end", g)
			return
		}
	}
	var all []*life
	for _, l := range lives {
		all = append(all, l...)
	}
	end := func() {
		for _, l := range all {
			if l.closCall == 0 {
				l.closCall = e.Seq()
				l.p.Close()
				l.closRet = e.Seq()
			}
		}
	}
	var last *list
	if c.End {
		end()
	}
	d := engine.Go(func() { last = doList("the last list", -1) })
	if !e.Until(d) {
		e.Failf("C34", "the last list does not end")
		return
	}
	var lls []*list
	for _, l := range lists {
		lls = append(lls, l...)
	}
	for _, l := range append(lls, last) {
		seen := map[goroutines.Pool]bool{}
		for _, p := range l.pools {
			if seen[p] {
				e.Failf("C34", "%s: the pool %q comes twice", l.where, p.GetName())
			}
			seen[p] = true
		}
		open, moved := 0, 0
		for _, x := range all {
			must := x.newRet < l.call && (x.closCall == 0 || x.closCall > l.ret) && x.name != ""
			may := x.newCall < l.ret && (x.closRet == 0 || x.closRet > l.call)
			if must {
				open++
			}
			if may && !must || x.closRet != 0 && x.closRet < l.call {
				moved++
			}
			if must && l.whole && !seen[x.p] {
				e.Failf("C34", "%s: the pool %q is open and not in the list", l.where, x.name)
			}
			if !may && seen[x.p] {
				e.Failf("C34", "%s: the pool %q is in the list and not open", l.where, x.name)
			}
			if seen[x.p] && x.name == "" {
				e.Failf("C34", "%s: a pool without a name is in the list", l.where)
			}
			delete(seen, x.p)
		}
		for p := range seen {
			e.Failf("C34", "%s: the pool %q in the list was never made", l.where, p.GetName())
		}
		if open > 0 && moved > 0 {
			e.NonTrivial()
		}
		e.LabelIf(!l.whole, "list not read to its end")
		e.LabelIf(open == 0, "nothing open")
	}
	end()
	time.Sleep(time.Millisecond)
}
