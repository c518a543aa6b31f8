// Package engine runs generated cases against the code under test.
//
// A unit is a generator of cases, a normaliser that turns any decoded case into a legal one
// (so that shrinking can work on the JSON form) and a body with the oracles. Case i of a unit is
// a pure function of (VERIF_SEED, unit, i). Each case runs in a synctest bubble: time is virtual,
// a deadlock is an observable outcome, and goroutines left behind are seen.
package engine

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"zzverif.local/xadd"

	"github.com/gostdlib/concurrency/zzverif/vsched"
)

// Counter is an atomic counter that adds no happens-before edges as far as the race
// detector is concerned, so that the harness does not hide races of the code under test.
type Counter struct{ v uint64 }

// Add adds d and returns the new value.
func (c *Counter) Add(d int64) int64 { return int64(xadd.Xadd(&c.v, uint64(d))) }

// Max makes the value at least v.
func (c *Counter) Max(v int64) { xadd.Xmax(&c.v, uint64(v)) }

// Load returns the value.
func (c *Counter) Load() int64 { return int64(xadd.Xadd(&c.v, 0)) }

// Env is what the body of a unit gets.
type Env struct {
	Tier  string
	Par   int // GOMAXPROCS of this worker
	Dict  Dict
	mu    sync.Mutex
	fails []string
	label map[string]int
	nt    bool
	seq   Counter
	plan  vsched.Plan
	T     *testing.T
	t0    time.Time
	// Slack is how much virtual time Settle and Until allow on top of what schedule points can take.
	Slack time.Duration
	// IgnoreLeaks makes goroutines left behind at the end of the case no failure.
	IgnoreLeaks bool
	// LeakTag names the properties that goroutines left behind violate (default: any).
	LeakTag string
}

// Failf records a violation of the properties named in tag (separated by spaces; "*" is any property).
// A violation of a property other than the one being decided is only counted.
func (e *Env) Failf(tag string, format string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if tag != "*" && Focus != "" && !strings.Contains(" "+tag+" ", " "+Focus+" ") {
		e.label["other property violated: "+tag]++
		return
	}
	if len(e.fails) < 5 {
		e.fails = append(e.fails, fmt.Sprintf(format, a...))
	}
}

// Allow lets the case take n more steps before it counts as one without an end.
func (e *Env) Allow(n int) { vsched.Allow(uint64(n)) }

// Failed reports whether a violation was recorded.
func (e *Env) Failed() bool { e.mu.Lock(); defer e.mu.Unlock(); return len(e.fails) > 0 }

// Label counts a class of cases.
func (e *Env) Label(s string) { e.mu.Lock(); e.label[s]++; e.mu.Unlock() }

// LabelIf counts a class of cases.
func (e *Env) LabelIf(c bool, s string) {
	if c {
		e.Label(s)
	}
}

// NonTrivial marks the case as non-trivial by the unit's rule.
func (e *Env) NonTrivial() { e.mu.Lock(); e.nt = true; e.mu.Unlock() }

// Seq returns the next number of the case's global event order.
func (e *Env) Seq() int64 { return e.seq.Add(1) }

// Settle lets everything that can happen happen: it sleeps, in virtual time, for much longer than
// all schedule points together can hold a goroutine.
func (e *Env) Settle() {
	p := vsched.Pushed()
	for d := e.settle(); d > 0; {
		time.Sleep(d)
		// What the points passed in the meantime have slept is not part of it.
		d = vsched.Pushed() - p
		p += d
	}
}

// Still reports whether no schedule point holds anyone, so that virtual time only passes where someone waits.
func (e *Env) Still() bool { return e.plan.Kind == 0 }

func (e *Env) settle() time.Duration {
	if e.plan.Kind == 0 {
		return e.Slack
	}
	var d time.Duration
	switch e.plan.Kind {
	case 1:
		d = time.Duration(int64(e.plan.Points) * e.plan.Max)
	case 2:
		d = time.Duration(int64(e.plan.Points)*e.plan.Long + 1000*e.plan.Max)
	case 3:
		d = time.Duration(int64(e.plan.Holds)*e.plan.Long + 1000*e.plan.Max)
	}
	// A spinning lock re-tries at most a quarter of the time waited so far later, and one lock can be
	// queued for after another.
	return 4*d + e.Slack
}

// Dict holds literals found in the code under test.
type Dict struct {
	Ints []int64  `json:"ints"`
	Strs []string `json:"strs"`
}

// Case is one generated case in its stored form.
type Case struct {
	Unit string          `json:"unit"`
	Idx  int             `json:"idx"`
	Seed int64           `json:"seed"`
	Plan vsched.Plan     `json:"plan"`
	Case json.RawMessage `json:"case"`
}

// Unit is a registered unit.
type Unit struct {
	Name string
	Rule string
	// Files are the prefixes of the files whose schedule points can be singled out.
	Files []string
	// Scale is the length of a long hold.
	Scale time.Duration
	// NoPlan disables schedule plans for the unit.
	NoPlan bool
	gen    func(seed int) []byte
	run    func(e *Env, raw []byte) error
}

var units = map[string]*Unit{}

// Add registers a unit.
func Add[C any](u Unit, gen func(t *rapid.T) C, norm func(*C), run func(*Env, C)) {
	g := rapid.Custom(gen)
	u.gen = func(seed int) []byte {
		c := g.Example(seed)
		norm(&c)
		b, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		return b
	}
	u.run = func(e *Env, raw []byte) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		norm(&c)
		run(e, c)
		return nil
	}
	if u.Scale == 0 {
		u.Scale = time.Hour
	}
	units[u.Name] = &u
}

// TheDict is the dictionary; valid from the start of Main.
var TheDict Dict

// Tier is "quick" or "thorough".
var Tier string

// Focus is the property being decided.
var Focus string

type siteInfo struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
}

type task struct {
	Unit  string `json:"unit"`
	From  int    `json:"from"`
	To    int    `json:"to"`
	Step  int    `json:"step"`
	Soft  int64  `json:"soft_ms"` // stop the task after so many ms
	Extra string `json:"extra"`
}

type config struct {
	Mode    string `json:"mode"` // run, replay, dump
	Tasks   []task `json:"tasks"`
	Seed    int64  `json:"seed"`
	Prop    string `json:"prop"`
	Tier    string `json:"tier"`
	Sites   string `json:"sites"`
	DictF   string `json:"dict"`
	Out     string `json:"out"`
	Prog    string `json:"prog"`
	Replay  string `json:"replay"`
	Repeat  int    `json:"repeat"`
	HangMS  int64  `json:"hang_ms"`
	Samples int    `json:"samples"`
}

type unitResult struct {
	Unit    string            `json:"unit"`
	Rule    string            `json:"rule"`
	N       int               `json:"n"`
	NT      int               `json:"nt"`
	Labels  map[string]int    `json:"labels"`
	Samples []json.RawMessage `json:"samples"`
	Hashes  []string          `json:"hashes"`
	Cut     bool              `json:"cut"`
	Plans   map[string]int    `json:"plans"`
}

type result struct {
	Units []*unitResult `json:"units"`
	Hits  []int         `json:"hits"`
	Steps uint64        `json:"steps"`
	Fail  *failure      `json:"fail"`
}

type failure struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Case *Case  `json:"case"`
}

func mix(parts ...string) uint64 {
	h := sha256.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%d:%s|", len(p), p)
	}
	s := h.Sum(nil)
	return binary.LittleEndian.Uint64(s)
}

func makePlan(u *Unit, r uint64) vsched.Plan {
	var p vsched.Plan
	if u.NoPlan {
		return p
	}
	st := r
	next := func(n uint64) uint64 {
		st += 0x9e3779b97f4a7c15
		z := st
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return (z ^ (z >> 31)) % n
	}
	k := next(100)
	switch {
	case k < 20:
		p.Kind = 0
	case k < 42:
		p.Kind = 1
	case k < 60:
		p.Kind = 2
	default:
		p.Kind = 3
	}
	p.Seed = next(1 << 40)
	p.Prob = []uint64{4, 16, 64, 160}[next(4)]
	p.Max = []int64{2, 20, 200, 5000}[next(4)]
	p.Long = int64(u.Scale)
	p.Points = []int{1, 3, 10}[next(3)]
	if p.Kind == 1 {
		p.Points = 4000
	}
	for i := range p.Sites {
		p.Sites[i] = int(next(1 << 30))
	}
	if next(3) != 0 { // usually one place is held
		p.Sites[1], p.Sites[2] = -1, -1
	}
	p.Skip = int([]uint64{0, 0, 0, 1, 1, 2, 3, next(8), next(30)}[next(9)])
	p.Holds = []int{1, 1, 1, 2, 4}[next(5)]
	return p
}

var allSites []siteInfo

func resolve(u *Unit, p vsched.Plan) vsched.Plan {
	var s []int
	for _, si := range allSites {
		for _, pre := range u.Files {
			if strings.HasPrefix(si.File, pre) {
				s = append(s, si.ID)
				break
			}
		}
	}
	s = append(s, vsched.AtomicSite)
	for i, x := range p.Sites {
		if x >= 0 {
			p.Sites[i] = s[x%len(s)]
		}
	}
	return clampPlan(p)
}

func clampPlan(p vsched.Plan) vsched.Plan {
	if p.Max < 1 {
		p.Max = 1
	}
	if p.Long < 1 {
		p.Long = 1
	}
	if p.Kind != 3 {
		p.Holds = 0
	}
	if p.Kind != 1 && p.Kind != 2 {
		p.Points = 0
	}
	return p
}

// runCase runs one case and returns what it found. Crashes and data races end the process.
func runCase(t *testing.T, u *Unit, c *Case, par int) (e *Env, kind string, msg string) {
	wall := time.Now()
	e = &Env{Tier: Tier, Par: par, Dict: TheDict, label: map[string]int{}, T: t, Slack: 10 * time.Hour}
	plan := resolve(u, c.Plan)
	e.plan = plan
	bubble := -1
	done := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				s := fmt.Sprint(r)
				switch {
				case strings.Contains(s, "deadlock: main bubble goroutine has exited"):
					kind = "leak"
				case strings.Contains(s, "deadlock"):
					kind, msg = "deadlock", s+"\n"+bubbleStacks(bubble)
				default:
					kind, msg = "panic", s+"\n"+string(debug.Stack())
				}
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			bubble = bubbleID()
			e.T = t
			e.t0 = time.Now()
			vsched.Begin(plan)
			if err := u.run(e, c.Case); err != nil {
				e.Failf("*", "harness: cannot decode case: %v", err)
			}
			vsched.End()
			// Let what is left finish.
			time.Sleep(e.settle())
			done = true
		})
	}()
	if f := os.Getenv("ZZ_STEPS"); f != "" && (vsched.Passed() > 1_000_000 || time.Since(wall) > time.Second) { // To see which cases are big.
		if w, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			fmt.Fprintf(w, "%d %s %d %v\n", vsched.Passed(), u.Name, c.Idx, time.Since(wall))
			if time.Since(wall) > 10*time.Second {
				b, _ := json.Marshal(c)
				fmt.Fprintf(w, "%s\n", b)
			}
			w.Close()
		}
	}
	vsched.Off()
	if kind == "leak" {
		if m := libStacks(bubble); m != "" && !e.IgnoreLeaks && e.LeakTag != "" && Focus != "" && !strings.Contains(" "+e.LeakTag+" ", " "+Focus+" ") {
			e.label["other property violated: "+e.LeakTag]++
			kind = ""
		} else if m != "" && !e.IgnoreLeaks {
			msg = "goroutines left behind after everything was closed and all work was done:\n" + m
		} else {
			kind = ""
		}
	}
	if len(e.fails) > 0 {
		kind, msg = "oracle", strings.Join(e.fails, "\n")
	} else if kind == "" && !done {
		kind, msg = "oracle", "harness: case ended early"
	}
	return e, kind, msg
}

func bubbleID() int {
	buf := make([]byte, 256)
	buf = buf[:runtime.Stack(buf, false)]
	return parseBubble(buf)
}

func parseBubble(b []byte) int {
	i := bytes.Index(b, []byte("synctest bubble "))
	nl := bytes.IndexByte(b, '\n')
	if i < 0 || (nl >= 0 && i > nl) {
		return -1
	}
	n := 0
	for _, c := range b[i+len("synctest bubble "):] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int(c-'0')
	}
	return n
}

func stacks(bubble int) []string {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []string
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		if parseBubble(g) == bubble && bubble >= 0 {
			out = append(out, string(g))
		}
	}
	return out
}

func bubbleStacks(bubble int) string {
	s := stacks(bubble)
	if len(s) > 12 {
		s = s[:12]
	}
	return strings.Join(s, "\n\n")
}

// libStacks returns the stacks of goroutines of the bubble that run library or harness code,
// leaving out those that run code of other modules only.
func libStacks(bubble int) string {
	var out []string
	for _, g := range stacks(bubble) {
		hit := false
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "created by ") {
				break
			}
			if strings.Contains(l, "gostdlib/concurrency/") && !strings.HasPrefix(l, "\t") &&
				!strings.Contains(l, "zzverif/vsched") && !strings.Contains(l, "zzverif/vsync") &&
				!strings.Contains(l, "zzverif/engine.") {
				hit = true
			}
			if strings.HasPrefix(l, "github.com/johnsiilver/dynamics") {
				hit = true
			}
		}
		if hit {
			out = append(out, g)
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n\n")
}

// MakeCase builds case i of a unit.
func makeCase(u *Unit, seed int64, i int) *Case {
	s := mix("case", Focus, u.Name, fmt.Sprint(seed), fmt.Sprint(i))
	c := &Case{Unit: u.Name, Idx: i, Seed: seed}
	c.Plan = makePlan(u, mix("plan", Focus, u.Name, fmt.Sprint(seed), fmt.Sprint(i)))
	c.Case = u.gen(int(s >> 1))
	return c
}

// Main is the entry of every harness binary: it is called by the one test of the package.
func Main(t *testing.T) {
	cf := os.Getenv("ZZ_CFG")
	if cf == "" {
		t.Skip("no configuration")
	}
	var cfg config
	b, err := os.ReadFile(cf)
	must(err)
	must(json.Unmarshal(b, &cfg))
	Tier = cfg.Tier
	Focus = cfg.Prop
	if b, err := os.ReadFile(cfg.Sites); err == nil {
		must(json.Unmarshal(b, &allSites))
	}
	if b, err := os.ReadFile(cfg.DictF); err == nil {
		must(json.Unmarshal(b, &TheDict))
	}
	par := runtime.GOMAXPROCS(0)
	res := &result{}
	finish := func(code int) {
		n := 0
		for _, s := range allSites {
			n = max(n, s.ID+1)
		}
		for i, h := range vsched.Hits(n) {
			if h > 0 {
				res.Hits = append(res.Hits, i)
			}
		}
		res.Steps = vsched.Steps()
		b, err := json.Marshal(res)
		must(err)
		must(os.WriteFile(cfg.Out, b, 0o644))
		os.Exit(code)
	}
	prog := progress{}
	if cfg.Prog != "" {
		prog.f, err = os.OpenFile(cfg.Prog, os.O_CREATE|os.O_WRONLY, 0o644)
		must(err)
	}
	wd := &watchdog{limit: time.Duration(cfg.HangMS) * time.Millisecond}
	if cfg.HangMS > 0 {
		go wd.loop()
	}
	switch cfg.Mode {
	case "dump":
		for _, tk := range cfg.Tasks {
			u := units[tk.Unit]
			res.Fail = &failure{Kind: "dump", Case: makeCase(u, cfg.Seed, tk.From)}
		}
		finish(0)
	case "replay":
		b, err := os.ReadFile(cfg.Replay)
		must(err)
		var c Case
		must(json.Unmarshal(b, &c))
		u := units[c.Unit]
		if u == nil {
			fmt.Fprintln(os.Stderr, "no such unit:", c.Unit)
			os.Exit(2)
		}
		for i := 0; i < max(1, cfg.Repeat); i++ {
			wd.begin()
			_, kind, msg := runCase(t, u, &c, par)
			wd.end()
			if kind != "" {
				res.Fail = &failure{Kind: kind, Msg: msg, Case: &c}
				finish(3)
			}
		}
		finish(0)
	}
	for ti, tk := range cfg.Tasks {
		u := units[tk.Unit]
		if u == nil {
			fmt.Fprintln(os.Stderr, "no such unit:", tk.Unit)
			os.Exit(2)
		}
		ur := &unitResult{Unit: u.Name, Rule: u.Rule, Labels: map[string]int{}, Plans: map[string]int{}}
		res.Units = append(res.Units, ur)
		seen := map[string]bool{}
		start := time.Now()
		for i := tk.From; i < tk.To; i += tk.Step {
			if tk.Soft > 0 && time.Since(start) > time.Duration(tk.Soft)*time.Millisecond {
				ur.Cut = true
				break
			}
			prog.write(ti, i)
			wd.begin()
			c := makeCase(u, cfg.Seed, i)
			e, kind, msg := runCase(t, u, c, par)
			wd.end()
			ur.N++
			ur.Plans[fmt.Sprint(c.Plan.Kind)]++
			for l, n := range e.label {
				ur.Labels[l] += min(n, 1)
			}
			if kind != "" {
				res.Fail = &failure{Kind: kind, Msg: msg, Case: c}
				finish(3)
			}
			if e.nt {
				ur.NT++
				sum := sha256.Sum256(append([]byte(c.Plan.String()), c.Case...))
				h := fmt.Sprintf("%x", sum[:6])
				if !seen[h] {
					seen[h] = true
					if len(ur.Samples) < cfg.Samples && len(c.Case) < 1500 {
						sb, _ := json.Marshal(c)
						ur.Samples = append(ur.Samples, sb)
					}
				}
			}
		}
		for h := range seen {
			ur.Hashes = append(ur.Hashes, h)
		}
		sort.Strings(ur.Hashes)
	}
	prog.write(len(cfg.Tasks), 0)
	finish(0)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
}

type progress struct{ f *os.File }

func (p *progress) write(task, i int) {
	if p.f == nil {
		return
	}
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], uint64(task))
	binary.LittleEndian.PutUint64(b[8:], uint64(i))
	p.f.WriteAt(b[:], 0)
}

type watchdog struct {
	mu    sync.Mutex
	since time.Time
	limit time.Duration
}

func (w *watchdog) begin() { w.mu.Lock(); w.since = time.Now(); w.mu.Unlock() }
func (w *watchdog) end()   { w.mu.Lock(); w.since = time.Time{}; w.mu.Unlock() }
func (w *watchdog) loop() {
	for {
		time.Sleep(500 * time.Millisecond)
		w.mu.Lock()
		s := w.since
		w.mu.Unlock()
		if !s.IsZero() && time.Since(s) > w.limit {
			buf := make([]byte, 1<<18)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "ZZHANG: a case did not finish in %v\n%s\n", w.limit, buf)
			os.Exit(4)
		}
	}
}

// PlanKind is the kind of schedule plan the case runs under.
func (e *Env) PlanKind() int { return e.plan.Kind }

// Exact reports whether the statements of the code under test have taken no virtual time so far.
func (e *Env) Exact() bool { return e.plan.Kind == 0 && vsched.Forced() == 0 }
