// Package spans is a tracer that remembers its spans, for contexts that carry a recording span.
package spans

import (
	"context"
	"fmt"
	"sync"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/noop"
)

// Recorder remembers spans. It is a tracer provider, too.
type Recorder struct {
	noop.TracerProvider
	mu    sync.Mutex
	Spans []*Span
	Root  *Span
}

// Span is a remembered span.
type Span struct {
	noop.Span
	rec    *Recorder
	id     byte
	Name   string
	Parent *Span
	mu     sync.Mutex
	ended  int
	late   int
	errs   []error
	status codes.Code
	desc   string
	events []Event
}

// Event is a remembered event.
type Event struct {
	Name string
	At   time.Time
	Attr map[string]any
	N    int // attributes, also those of the same name
}

type tracer struct {
	noop.Tracer
	rec *Recorder
}

// New returns a recorder and a context with its root span.
func New(ctx context.Context) (*Recorder, context.Context) {
	r := &Recorder{}
	r.Root = &Span{rec: r, Name: "root"}
	return r, trace.ContextWithSpan(ctx, r.Root)
}

// On is New if on is set, and otherwise returns ctx and a Recorder that nothing uses.
func On(ctx context.Context, on bool) (*Recorder, context.Context) {
	if on {
		return New(ctx)
	}
	r, _ := New(ctx)
	return r, ctx
}

// Put returns ctx with the root span.
func (r *Recorder) Put(ctx context.Context) context.Context {
	return trace.ContextWithSpan(ctx, r.Root)
}

func (r *Recorder) Tracer(string, ...trace.TracerOption) trace.Tracer { return tracer{rec: r} }

func (t tracer) Start(ctx context.Context, name string, _ ...trace.SpanStartOption) (context.Context, trace.Span) {
	p, _ := trace.SpanFromContext(ctx).(*Span)
	s := &Span{rec: t.rec, Name: name, Parent: p}
	t.rec.mu.Lock()
	t.rec.Spans = append(t.rec.Spans, s)
	t.rec.mu.Unlock()
	return trace.ContextWithSpan(ctx, s), s
}

func (s *Span) use() {
	s.mu.Lock()
	if s.ended > 0 {
		s.late++
	}
	s.mu.Unlock()
}

func (s *Span) End(...trace.SpanEndOption) { s.mu.Lock(); s.ended++; s.mu.Unlock() }

func (s *Span) AddEvent(name string, opts ...trace.EventOption) {
	s.use()
	ev := Event{Name: name, At: time.Now(), Attr: map[string]any{}}
	cfg := trace.NewEventConfig(opts...)
	for _, kv := range cfg.Attributes() {
		ev.Attr[string(kv.Key)] = kv.Value.AsInterface()
		ev.N++
	}
	s.mu.Lock()
	s.events = append(s.events, ev)
	s.mu.Unlock()
}
func (s *Span) AddLink(trace.Link) { s.use() }
func (s *Span) RecordError(err error, _ ...trace.EventOption) {
	s.use()
	s.mu.Lock()
	s.errs = append(s.errs, err)
	s.mu.Unlock()
}
func (s *Span) SetStatus(c codes.Code, desc string) {
	s.use()
	s.mu.Lock()
	s.status = c
	s.desc = desc
	s.mu.Unlock()
}
func (s *Span) SetName(string)                       { s.use() }
func (s *Span) SetAttributes(...attribute.KeyValue)  { s.use() }
func (s *Span) IsRecording() bool                    { s.mu.Lock(); defer s.mu.Unlock(); return s.ended == 0 }
func (s *Span) TracerProvider() trace.TracerProvider { return s.rec }
func (s *Span) SpanContext() trace.SpanContext {
	return trace.NewSpanContext(trace.SpanContextConfig{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{1}, TraceFlags: trace.FlagsSampled})
}

// Ended returns how often the span was ended.
func (s *Span) Ended() int { s.mu.Lock(); defer s.mu.Unlock(); return s.ended }

// Status returns the status set last.
func (s *Span) Status() codes.Code { s.mu.Lock(); defer s.mu.Unlock(); return s.status }

// Desc returns the description of the status set last.
func (s *Span) Desc() string { s.mu.Lock(); defer s.mu.Unlock(); return s.desc }

// Errors returns the errors recorded.
func (s *Span) Errors() []error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]error{}, s.errs...)
}

// Events returns the events recorded.
func (s *Span) Events() []Event {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Event{}, s.events...)
}

// With returns the recorded events that have an attribute of that name.
func (s *Span) With(key string) []Event {
	var l []Event
	for _, ev := range s.Events() {
		if _, ok := ev.Attr[key]; ok {
			l = append(l, ev)
		}
	}
	return l
}

// Children returns the spans started under s, in order.
func (s *Span) Children() []*Span {
	var l []*Span
	for _, c := range s.rec.All() {
		if c.Parent == s {
			l = append(l, c)
		}
	}
	return l
}

// Child starts a span under s.
func (s *Span) Child(ctx context.Context, name string) (context.Context, *Span) {
	ctx, _ = tracer{rec: s.rec}.Start(trace.ContextWithSpan(ctx, s), name)
	return ctx, From(ctx)
}

// From returns the remembered span of ctx.
func From(ctx context.Context) *Span {
	s, _ := trace.SpanFromContext(ctx).(*Span)
	return s
}

// All returns the spans started so far.
func (r *Recorder) All() []*Span {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*Span{}, r.Spans...)
}

// Open returns the names of the spans that have been started and not ended, with counts.
func (r *Recorder) Open() (n int, names string) {
	m := map[string]int{}
	for _, s := range r.All() {
		if s.Ended() == 0 {
			n++
			m[s.Name]++
		}
	}
	k := 0
	for name, c := range m {
		if k++; k > 4 {
			break
		}
		names += fmt.Sprintf(" %q (%d times)", name, c)
	}
	return n, names
}

// Final describes what is wrong with the spans when everything is over; it is empty if nothing is.
func (r *Recorder) Final() string {
	if n, names := r.Open(); n > 0 {
		return fmt.Sprintf("%d spans were not ended:%s", n, names)
	}
	return r.Bad()
}

// Bad describes the first span that was ended more than once or used after its end, and whether the root was ended.
func (r *Recorder) Bad() string {
	if r.Root.Ended() != 0 {
		return "the caller's span was ended"
	}
	for _, s := range r.All() {
		s.mu.Lock()
		e, l := s.ended, s.late
		s.mu.Unlock()
		if e > 1 {
			return fmt.Sprintf("span %q was ended %d times", s.Name, e)
		}
		if l > 0 {
			return fmt.Sprintf("span %q was used %d times after its end", s.Name, l)
		}
	}
	return ""
}
