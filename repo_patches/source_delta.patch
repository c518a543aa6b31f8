From 365d7ce524dc6a26f6971b2470f62c7d14aa891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 01/34] fix: limited.Pool gave its slot back when Submit
 returned, so the size did not limit anything

---
 goroutines/limited/goroutines.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 33304df..364a3ba 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -151,7 +151,6 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 			p.blockEvent(spanner, fcn, now)
 			p.queue <- struct{}{}
 		}
-		defer func() { <-p.queue }()
 	}
 	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
 
@@ -161,6 +160,10 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 	go func() {
 		defer p.wg.Done()
 		defer p.running.Add(-1)
+		if !opts.NonBlocking {
+			// The slot is ours until the job is done, not just until Submit() returns.
+			defer func() { <-p.queue }()
+		}
 		runner(ctx)
 	}()
 
-- 
2.43.0


From c3c3f498cc62a68d13ea7214bdb552a6766a15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 02/34] fix: the third pool with the same name made New loop
 forever

---
 goroutines/internal/register/register.go | 2 +-
 goroutines/limited/goroutines.go         | 2 +-
 goroutines/pooled/goroutines.go          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index 98d57cc..e570dd1 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -67,7 +67,7 @@ func NewName(name string) string {
 	}
 
 	n++
-	return fmt.Sprintf("%s-%d", sp[0], n)
+	return fmt.Sprintf("%s%d", sp[0], n) // sp[0] ends with the hyphen
 }
 
 // Pools returns all pools registered by this package. Order is non-deterministic.
diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 364a3ba..b516bea 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -54,7 +54,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index c9752f5..0535e6d 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -55,7 +55,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
-- 
2.43.0


From 371ddd097d8f4a43ba47980b8665c2ad25e10a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 03/34] fix: Pool.Len returned the queue length instead of the
 size of the pool

---
 goroutines/limited/goroutines.go | 2 +-
 goroutines/pooled/goroutines.go  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index b516bea..358b8eb 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -77,7 +77,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return cap(p.queue)
 }
 
 // Running returns the number of running jobs in the pool.
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 0535e6d..d87ce23 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -29,6 +29,7 @@ type Pool struct {
 	metrics   pool.Metrics
 	pool.Pool // Implements the pool.Preventer interface
 	queue     chan submit
+	size      int
 	name      string
 }
 
@@ -48,7 +49,7 @@ func New(name string, size int) (*Pool, error) {
 	}
 
 	ch := make(chan submit, 1)
-	p := &Pool{name: name, queue: ch}
+	p := &Pool{name: name, queue: ch, size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
 	}
@@ -78,7 +79,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return p.size
 }
 
 // Running returns the number of running jobs in the pool.
-- 
2.43.0


From 160d61fb96ed92e0f8e6cf0ed5dd6569f431ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 04/34] fix: a pooled NonBlocking job could sit in the queue
 while all goroutines were busy

---
 goroutines/pooled/goroutines.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index d87ce23..70308e2 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -29,8 +29,11 @@ type Pool struct {
 	metrics   pool.Metrics
 	pool.Pool // Implements the pool.Preventer interface
 	queue     chan submit
-	size      int
-	name      string
+	// direct hands a NonBlocking() job to a goroutine that is idle. It has no buffer, as a job in
+	// a buffer would have to wait for a goroutine.
+	direct chan submit
+	size   int
+	name   string
 }
 
 // New creates a new Pool. "name" is the name of the pool which is used to get OTEL
@@ -49,7 +52,7 @@ func New(name string, size int) (*Pool, error) {
 	}
 
 	ch := make(chan submit, 1)
-	p := &Pool{name: name, queue: ch, size: size}
+	p := &Pool{name: name, queue: ch, direct: make(chan submit), size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
 	}
@@ -156,7 +159,7 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 	p.running.Add(1)
 	if opts.NonBlocking {
 		select {
-		case p.queue <- s:
+		case p.direct <- s:
 		default:
 			go func() {
 				defer p.wg.Done()
@@ -200,9 +203,18 @@ func (p *Pool) blockEvent(spanner span.Span, fcn string, t time.Time) {
 	)
 }
 
-// runner is used to run any function that comes in on the in channel.
+// runner is used to run any function that comes in on the in channels.
 func (p *Pool) runner() {
-	for s := range p.queue {
+	for {
+		var s submit
+		var ok bool
+		select {
+		case s, ok = <-p.queue:
+			if !ok {
+				return
+			}
+		case s = <-p.direct:
+		}
 		s.job(s.ctx)
 		p.running.Add(-1)
 		p.wg.Done()
-- 
2.43.0


From bca941145bd7f3dc644f632461001bc54ec3daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 05/34] fix: Errors.Error and Errors.Errors read the errors
 without the lock

---
 goroutines/goroutines.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/goroutines/goroutines.go b/goroutines/goroutines.go
index adf37ea..c631929 100644
--- a/goroutines/goroutines.go
+++ b/goroutines/goroutines.go
@@ -182,6 +182,9 @@ func (e *Errors) Record(err error) {
 
 // Error returns the first error recieved.
 func (e *Errors) Error() error {
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
 	if len(e.errors) == 0 {
 		return nil
 	}
@@ -190,5 +193,9 @@ func (e *Errors) Error() error {
 
 // Errors returns all errors.
 func (e *Errors) Errors() []error {
-	return e.errors
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
+	// A copy, as Record() may still be adding to ours.
+	return append([]error(nil), e.errors...)
 }
-- 
2.43.0


From 7284037d03c1019a43a8c8c000117aa39396375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 06/34] fix: Group.Running could be off after Wait, as the
 count changed after Done

---
 prim/wait/wait.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 4706077..580ac70 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -123,8 +123,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	if w.Pool == nil {
 		w.wg.Add(1)
 		go func() {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1) // Must happen before Done(), as Wait() resets the count.
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
@@ -145,8 +145,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1) // Must happen before Done(), as Wait() resets the count.
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
-- 
2.43.0


From 29a9b45046250cec5cd1f40829efa4f1dd6271a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 07/34] fix: wait.Group dropped all errors but the last one

---
 prim/wait/wait.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 580ac70..008702c 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -25,6 +25,7 @@ package wait
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -250,14 +251,35 @@ func applyErr(ptr *atomic.Pointer[error], err error) {
 			case context.Canceled, context.DeadlineExceeded:
 				return
 			}
-			err = fmt.Errorf("%w", err)
-			if ptr.CompareAndSwap(existing, &err) {
+			var wrapped error = &groupError{error: err, prev: *existing}
+			if ptr.CompareAndSwap(existing, &wrapped) {
 				return
 			}
 		}
 	}
 }
 
+// groupError is an error that wraps the errors that were recorded before it.
+type groupError struct {
+	error
+	prev error
+}
+
+// Is implements the interface used by errors.Is() for the error itself.
+func (g *groupError) Is(target error) bool {
+	return errors.Is(g.error, target)
+}
+
+// As implements the interface used by errors.As() for the error itself.
+func (g *groupError) As(target any) bool {
+	return errors.As(g.error, target)
+}
+
+// Unwrap returns the errors that were recorded before.
+func (g *groupError) Unwrap() error {
+	return g.prev
+}
+
 type noCopy struct{}
 
 func (*noCopy) Lock() {}
-- 
2.43.0


From 633dfdf66bed6621ab7e11b529feba3a34a42f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 08/34] fix: slices.Access rejected every option

The options were applied to a **sliceOptions.
---
 prim/slices/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index dcefbe9..8d9cfa9 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -45,7 +45,7 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	spanner := span.Get(ctx)
 
 	opts := &sliceOptions{}
-	if err := calloptions.ApplyOptions(&opts, options); err != nil {
+	if err := calloptions.ApplyOptions(opts, options); err != nil {
 		return err
 	}
 
-- 
2.43.0


From fb79d7aa0e2c06b0a8d2b42c26a462684afe5da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 09/34] fix: WithPoolOptions ignored the pool

Only the submit options were set, so that the default pool was used with
options that belong to another pool.
---
 prim/chans/options.go  | 1 +
 prim/slices/options.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prim/chans/options.go b/prim/chans/options.go
index f5c54ed..05d97a0 100644
--- a/prim/chans/options.go
+++ b/prim/chans/options.go
@@ -46,6 +46,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *chanOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
diff --git a/prim/slices/options.go b/prim/slices/options.go
index 7c5baad..62ebc1a 100644
--- a/prim/slices/options.go
+++ b/prim/slices/options.go
@@ -49,6 +49,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *sliceOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
-- 
2.43.0


From 804df06d953a87127dcc566c1207b85968ac4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 10/34] fix: slices.Access returned while accessors were
 running if it was stopped

When the context was over or an error stopped the operation, Access returned
ctx.Err() without waiting for the accessors already started, and so without
their errors.
---
 prim/slices/slice.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index 8d9cfa9..2c31fa1 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -67,13 +67,15 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	if opts.stopOnErr {
 		ctx, cancel = context.WithCancel(ctx)
 	}
+	defer cancel()
+	var err error // The reason not all elements are processed.
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
 	for i := 0; i < len(s); i++ {
 		i := i
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if err = ctx.Err(); err != nil {
+			break
 		}
 
 		wg.Go(
@@ -83,7 +85,11 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 			},
 		)
 	}
-	if err := wg.Wait(ctx); err != nil {
+	// Accessors may still be running, even if we were stopped.
+	if werr := wg.Wait(ctx); werr != nil {
+		err = werr
+	}
+	if err != nil {
 		spanner.Error(err)
 		return err
 	}
-- 
2.43.0


From f1e6c983251dafe5bc75fc3e6c097ab68c5d06cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 11/34] fix: chans.Access ignored a cancelled context while the
 input was idle

It also returned while accessors were still running, without their errors, if
the context was over or an error stopped the operation. Modify() then closed
the output these were about to send to.
---
 prim/chans/chans.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 92d5f07..0cf8176 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -129,13 +129,24 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 	if opts.stopOnErr {
 		ctx, cancel = context.WithCancel(ctx)
 	}
+	defer cancel()
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
-	for v := range input {
-		v := v
+	var err error // The reason the input isn't processed to its end.
+	for {
+		if err = ctx.Err(); err != nil {
+			break
+		}
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		var v T
+		var ok bool
+		select {
+		case <-ctx.Done():
+			continue
+		case v, ok = <-input:
+		}
+		if !ok {
+			break
 		}
 
 		wg.Go(
@@ -148,7 +159,11 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 			},
 		)
 	}
-	if err := wg.Wait(ctx); err != nil {
+	// Accessors may still be running, even if we were stopped.
+	if werr := wg.Wait(ctx); werr != nil {
+		err = werr
+	}
+	if err != nil {
 		spanner.Error(err)
 		return err
 	}
-- 
2.43.0


From 226c27d9d7d2d7df4b99f39723916a7b0421d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 12/34] fix: chans.Modify could not be cancelled while sending
 a result

With nobody reading the output any more, a modifier that succeeded blocked the
operation forever.
---
 prim/chans/chans.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 0cf8176..8026155 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -211,7 +211,11 @@ func Modify[T, R any](ctx context.Context, input <-chan T, output chan <-StreamR
 			}
 			return err
 		}
-		output <- StreamResult[R]{Value: r}
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case output <- StreamResult[R]{Value: r}:
+		}
 		return nil
 	}
 
-- 
2.43.0


From f6d0a8ee3907a6000d702ce562b17122919e960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 13/34] fix: RWValue.LoadReplace panicked if no value was set

After calling the LoadReplacer with the zero value it dereferenced the nil
pointer to call it again.
---
 prim/atomics/atomics.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/prim/atomics/atomics.go b/prim/atomics/atomics.go
index 6aa6fb7..563f1e2 100644
--- a/prim/atomics/atomics.go
+++ b/prim/atomics/atomics.go
@@ -47,17 +47,7 @@ func (r *RWValue[T]) LoadReplace(lr LoadReplacer[T]) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
-	v := r.v.Load()
-	var n T
-	var err error
-	if v == nil {
-		var zero T
-		n, err = lr(zero)
-		if err != nil {
-			return err
-		}
-	}
-	n, err = lr(*v)
+	n, err := lr(r.Load())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 63701503fba02de468556d2cc2d3c85c7e042f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 14/34] fix: Pipelines.Close never closed the StateMachine

The Requests counted in Submit() were never counted off when they had been
processed, so that Close() waited forever with closing the output and the
StateMachine, and the demuxer's goroutines leaked.
---
 pipelines/stagedpipe/stagedpipe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 7894837..f76aaeb 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -436,6 +436,7 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 			id:            i,
 			in:            in,
 			out:           out,
+			wg:            p.wg,
 			num:           num,
 			sm:            sm,
 			subStages:     p.subStages,
@@ -643,6 +644,7 @@ type pipeline[T any] struct {
 	stats         *stats
 	in            chan Request[T]
 	out           chan Request[T]
+	wg            *sync.WaitGroup
 	name          string
 	preProcessors []PreProcesor[T]
 	id            int
@@ -655,6 +657,7 @@ type pipelineArgs[T any] struct {
 	sm            StateMachine[T]
 	in            chan Request[T]
 	out           chan Request[T]
+	wg            *sync.WaitGroup
 	stats         *stats
 	ss            bool
 	name          string
@@ -673,6 +676,7 @@ func newPipeline[T any](args pipelineArgs[T]) (*pipeline[T], error) {
 		id:            args.id,
 		in:            args.in,
 		out:           args.out,
+		wg:            args.wg,
 		preProcessors: args.preProcessors,
 		stats:         args.stats,
 		sm:            args.sm,
@@ -718,6 +722,7 @@ func (p *pipeline[T]) runner() {
 		} else {
 			p.out <- r
 		}
+		p.wg.Done() // The Add() is in Submit().
 	}
 }
 
-- 
2.43.0


From 442ae6f52678f7cd6796f666a8bc365cf7875ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 15/34] fix: a Request left DAG Pipelines with its record of
 seen stages

The record was put back to the pool and was still referenced by the Request.
Submitting that to other Pipelines, without DAG(), gave cyclic errors for
stages other Requests had seen and data races.
---
 pipelines/stagedpipe/stagedpipe.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index f76aaeb..e0d0f0a 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -727,15 +727,16 @@ func (p *pipeline[T]) runner() {
 }
 
 // processReq processes a single request through the pipeline.
-func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
+func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 	// Stat colllection.
 	r.ingestTime = time.Now()
 	queuedTime := time.Since(r.queueTime)
 	if p.ss {
-		r.seenStages = seenStagesPool.Get().(*seenStages).reset()
+		seen := seenStagesPool.Get().(*seenStages).reset()
+		r.seenStages = seen
 		defer func() {
-			seenStagesPool.Put(r.seenStages)
-			r.seenStages = nil
+			seenStagesPool.Put(seen)
+			out.seenStages = nil
 		}()
 	}
 
-- 
2.43.0


From d6c0c1f6500db41451cea79e4eff5b258ad1a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 16/34] fix: a DAG cycle back to Start was not detected

Start was recorded under the name of the interface method, while a stage
that sets Next to Start names it by the method of the StateMachine.
---
 pipelines/stagedpipe/stagedpipe.go | 48 ++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index e0d0f0a..ea2ef28 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -647,6 +647,7 @@ type pipeline[T any] struct {
 	wg            *sync.WaitGroup
 	name          string
 	preProcessors []PreProcesor[T]
+	startName     string
 	id            int
 	concurrency   int
 	delayWarning  time.Duration
@@ -684,6 +685,7 @@ func newPipeline[T any](args pipelineArgs[T]) (*pipeline[T], error) {
 		delayWarning:  args.delayWarning,
 	}
 
+	p.startName = startName(reflect.TypeOf(args.sm))
 	p.concurrency = numStages[T](args.sm) + args.subStages
 
 	if p.concurrency == 0 {
@@ -748,9 +750,9 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 	// Loop through all our states starting with p.sms[0].Start until we
 	// get either an error or the Request.Next == nil
 	// which indicates that the statemachine is done processing.
-	stage := p.sm.Start
+	stage, name := Stage[T](p.sm.Start), p.startName
 	for {
-		r = p.execStage(r, stage)
+		r = p.execStage(r, stage, name)
 		if r.Err != nil {
 			return r
 		}
@@ -760,14 +762,13 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 		if stage == nil {
 			return r
 		}
+		name = methodName(stage)
 	}
 }
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
-	stageName := methodName(stage)
-
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) Request[T] {
 	parentCtx := r.Ctx
 	parentSpan := r.span
 	defer func() {
@@ -788,7 +789,7 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
 	}
 
 	if r.seenStages != nil {
-		if r.seenStages.seen(methodName(stage)) {
+		if r.seenStages.seen(stageName) {
 			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
 			return r
 		}
@@ -824,6 +825,41 @@ func numStages[T any](sm any) int {
 	return count
 }
 
+// startName returns the name that methodName() has for the Start() method of t when a Stage
+// names it as the next Stage. Taking it from the StateMachine interface gives another name.
+func startName(t reflect.Type) string {
+	m, ok := t.MethodByName("Start")
+	if !ok {
+		return ""
+	}
+	fn := runtime.FuncForPC(m.Func.Pointer())
+	if file, _ := fn.FileLine(fn.Entry()); file != "<autogenerated>" {
+		return methodName(m.Func.Interface())
+	}
+
+	// This is a wrapper around the method of the type that t points to or embeds.
+	if t.Kind() == reflect.Pointer {
+		t = t.Elem()
+		if _, ok := t.MethodByName("Start"); ok {
+			return startName(t)
+		}
+	}
+	if t.Kind() == reflect.Struct {
+		for i := 0; i < t.NumField(); i++ {
+			f := t.Field(i)
+			if !f.Anonymous || f.Type.Kind() == reflect.Interface {
+				continue
+			}
+			for _, e := range []reflect.Type{f.Type, reflect.PointerTo(f.Type)} {
+				if _, ok := e.MethodByName("Start"); ok {
+					return startName(e)
+				}
+			}
+		}
+	}
+	return methodName(m.Func.Interface())
+}
+
 // methodName takes a function or a method and returns its name.
 func methodName(method any) string {
 	if method == nil {
-- 
2.43.0


From ae232778544dcd5cb27670a699e121280cb80f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 17/34] fix: creating and closing RequestGroups at the same
 time could lose one

The demux copies its map of receivers without a lock that covers removal,
so a group could be dropped and its first Request ended the process.
---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index ea2ef28..9889198 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -405,6 +405,8 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		func(r Request[T], err error) {
 			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
 		},
+		// Without this, a receiver is lost if groups are created and closed at the same time.
+		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
 	)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 974528c4644436690b2b781827b98e107ead9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 18/34] fix: Ordered Pipelines lost the output after a Submit
 that was cancelled

A Submit that failed kept its number, and the output of all Requests after
it waited for that number and was dropped.
---
 pipelines/stagedpipe/stagedpipe.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 9889198..dbb9663 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -499,6 +499,8 @@ type RequestGroup[T any] struct {
 
 	// itemNum is used to track the order of the Request in the RequestGroup.
 	itemNum atomic.Uint64
+	// numbering is held by the Submit() that is using itemNum when the output is ordered.
+	numbering chan struct{}
 
 	// startOnce is used to do operations related to telemetry on the first Submit() call.
 	startOnce *sync.Once
@@ -542,9 +544,20 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		r.otelStart()
 	})
 
+	req.queueTime = time.Now()
+	if r.ordered != nil {
+		// A number that is never output would hold back all Requests after it, so only one Submit
+		// at a time can have a number it might not use.
+		select {
+		case <-req.Ctx.Done():
+			return req.Ctx.Err()
+		case r.numbering <- struct{}{}:
+			defer func() { <-r.numbering }()
+		}
+	}
+
 	req.groupNum = r.id
 	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
-	req.queueTime = time.Now()
 
 	// This let's the Pipelines object know it is receiving a new Request to process.
 	r.p.wg.Add(1)
@@ -560,6 +573,9 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 	case <-req.Ctx.Done():
 		r.p.wg.Done()
 		r.wg.Done()
+		if r.ordered != nil {
+			r.itemNum.Add(^uint64(0)) // Give the number back.
+		}
 		return req.Ctx.Err()
 	case r.p.in <- req:
 	}
@@ -605,6 +621,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 
 	// If ordered is set, we need to return the output in order.
 	if p.ordered {
+		r.numbering = make(chan struct{}, 1)
 		r.ordered = demux.NewInOrder(
 			func(r Request[T]) uint64 {
 				return r.itemNum
-- 
2.43.0


From fac71256afdf8f061a4814308884b95fe9c8b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 19/34] fix: the minimum times in Stats were always 0

The minimum started at 0, so no measured time was smaller.
---
 pipelines/stagedpipe/stats.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pipelines/stagedpipe/stats.go b/pipelines/stagedpipe/stats.go
index 4025978..4cad348 100644
--- a/pipelines/stagedpipe/stats.go
+++ b/pipelines/stagedpipe/stats.go
@@ -1,6 +1,7 @@
 package stagedpipe
 
 import (
+	"math"
 	"sync/atomic"
 	"time"
 )
@@ -34,14 +35,18 @@ type stats struct {
 }
 
 func newStats() *stats {
-	return &stats{ingestStats: &ingestStats{}}
+	s := &stats{ingestStats: &ingestStats{}}
+	// 0 would be smaller than any time we measure.
+	s.min.Store(math.MaxInt64)
+	s.ingestStats.min.Store(math.MaxInt64)
+	return s
 }
 
 func (s *stats) toStats() Stats {
 	stats := Stats{
 		Running:   s.running.Load(),
 		Completed: s.completed.Load(),
-		Min:       time.Duration(s.min.Load()),
+		Min:       getMin(&s.min),
 		Max:       time.Duration(s.max.Load()),
 	}
 	if stats.Completed != 0 {
@@ -69,7 +74,7 @@ type ingestStats struct {
 
 func (i *ingestStats) toIngestStats(completed int64) IngestStats {
 	stats := IngestStats{
-		Min: time.Duration(i.min.Load()),
+		Min: getMin(&i.min),
 		Max: time.Duration(i.max.Load()),
 	}
 	if completed != 0 {
@@ -78,6 +83,14 @@ func (i *ingestStats) toIngestStats(completed int64) IngestStats {
 	return stats
 }
 
+// getMin returns the minimum that setMin() recorded, 0 if there is none.
+func getMin(current *atomic.Int64) time.Duration {
+	if m := current.Load(); m != math.MaxInt64 {
+		return time.Duration(m)
+	}
+	return 0
+}
+
 // setMin will set current to v if v is smaller that current.
 func setMin(current *atomic.Int64, v int64) {
 	for {
-- 
2.43.0


From fb73fd64ead1eed1d6fedfd0efeec5e35dbe77ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 20/34] fix: OTEL spans of stages, Requests and RequestGroups
 were never ended

The span of a stage replaced the one of its Request for good, so only the
last stage's span was ended.
---
 pipelines/stagedpipe/stagedpipe.go | 40 ++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index dbb9663..edfdaed 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -87,6 +87,7 @@ import (
 	"github.com/johnsiilver/dynamics/demux"
 	"github.com/johnsiilver/dynamics/method"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/trace"
 
 	"github.com/gostdlib/internals/otel/span"
 
@@ -175,6 +176,8 @@ func (s *seenStages) reset() *seenStages {
 // Requests is a Request to be processed by a pipeline.
 type Request[T any] struct {
 	span span.Span
+	// parent is the span that Ctx had when the Request was submitted.
+	parent trace.Span
 
 	// queueTime and ingestTime hold the times when the Request was queued and ingested.
 	queueTime, ingestTime time.Time
@@ -245,9 +248,9 @@ func (r Request[T]) Event(name string, keyValues ...any) error {
 	return r.span.Event(name, keyValues...)
 }
 
-func (r Request[T]) otelEnd() {
+func (r Request[T]) otelEnd() Request[T] {
 	if r.span.Span == nil || !r.span.Span.IsRecording() {
-		return
+		return r
 	}
 	if r.Err != nil {
 		r.span.Status(codes.Error, r.Err.Error())
@@ -262,6 +265,10 @@ func (r Request[T]) otelEnd() {
 		"elapsed_ns", time.Since(r.queueTime),
 	)
 	r.span.End()
+	if r.Ctx != nil { // The receiver of the Request must not continue with a span that has ended.
+		r.Ctx = trace.ContextWithSpan(r.Ctx, r.parent)
+	}
+	return r
 }
 
 // StateMachine represents a state machine where the methods that implement Stage
@@ -527,6 +534,8 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		return errors.New("Request.Ctx cannot be nil")
 	}
 
+	req.parent = trace.SpanFromContext(req.Ctx)
+
 	// If the group isn't named, name it.
 	gName := r.Name
 
@@ -576,6 +585,10 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		if r.ordered != nil {
 			r.itemNum.Add(^uint64(0)) // Give the number back.
 		}
+		if req.span.IsRecording() {
+			req.span.Status(codes.Error, req.Ctx.Err().Error())
+			req.span.End()
+		}
 		return req.Ctx.Err()
 	case r.p.in <- req:
 	}
@@ -604,6 +617,7 @@ func (r *RequestGroup[T]) otelEnd() {
 		return
 	}
 	r.span.Event("RequestGroup finished", "elapsed_ns", time.Since(*r.started.Load()))
+	r.span.End()
 }
 
 // NewRequestGroup returns a RequestGroup that can be used to process requests
@@ -632,7 +646,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer r.ordered.Close()
 			for req := range r.out {
 				r.wg.Done()
-				req.otelEnd()
+				req = req.otelEnd()
 				if err := r.ordered.Add(req); err != nil {
 					panic("bug: ordered demuxer returned an error")
 				}
@@ -643,7 +657,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer close(r.user)
 			for req := range r.out {
 				r.wg.Done()
-				req.otelEnd()
+				req = req.otelEnd()
 				r.user <- req
 			}
 		}()
@@ -787,18 +801,22 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) Request[T] {
-	parentCtx := r.Ctx
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) (out Request[T]) {
 	parentSpan := r.span
-	defer func() {
-		r.Ctx = parentCtx
-		r.span = parentSpan
-	}()
 	r.Ctx, r.span = span.New(r.Ctx, stageName)
+	stageSpan := r.span
 
 	r.Event(stageName, "start", time.Now())
 	defer func() {
-		r.Event(stageName, "end", time.Now())
+		out.span = parentSpan
+		if !stageSpan.IsRecording() {
+			return
+		}
+		stageSpan.Event(stageName, "end", time.Now())
+		stageSpan.End()
+		if out.Ctx != nil { // The Stage can have set another Context.
+			out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
+		}
 	}()
 
 	// If the context has been cancelled, stop processing.
-- 
2.43.0


From 2183b7b9be0030530dc7dbfdb53dec58e36475ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 21/34] fix: the OTEL span of a wait.Group was never ended

A Group that was used again without a recording span also wrote to the old one.
---
 prim/wait/wait.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 008702c..9195e77 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -84,6 +84,7 @@ type Group struct {
 func (w *Group) reset() {
 	w.start = time.Time{}
 	w.otelOnce = sync.Once{}
+	w.span = span.Span{}
 	w.count.Store(0)
 	w.total.Store(0)
 	w.errors.Store(nil)
@@ -188,6 +189,9 @@ func (w *Group) Wait(ctx context.Context) error {
 			"end", end.UTC(),
 			"elapsed_ns", end.Sub(now),
 		)
+		if w.span.IsRecording() {
+			w.span.End()
+		}
 	}()
 
 	w.waitOTELStart()
-- 
2.43.0


From 108aaffa79fa18af2998a002b6fb4f60e0844bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 22/34] fix: only the first function of a wait.Group ran under
 the Group's OTEL span

---
 prim/wait/wait.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 9195e77..548426d 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -116,7 +116,7 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	t := time.Now().UTC()
 	if w.span.Span != nil {
 		w.span.Event("Go", "start", t)
-		trace.ContextWithSpan(ctx, w.span.Span)
+		ctx = trace.ContextWithSpan(ctx, w.span.Span)
 	}
 
 	w.count.Add(1)
-- 
2.43.0


From 3bf1a6d651f81a02e0d935bd3667aecdc311884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 23/34] fix: New leaked goroutines if it failed

---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index edfdaed..11aef95 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -434,6 +434,7 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 
 	for _, o := range options {
 		if err := o(p); err != nil {
+			close(out) // Ends the demux.
 			return nil, err
 		}
 	}
@@ -458,6 +459,7 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		_, err := newPipeline(args)
 		if err != nil {
 			close(in)
+			close(out) // Ends the demux.
 			return nil, err
 		}
 	}
-- 
2.43.0


From 1344044c740e0ed6dcbd294811b403acbfb34330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 24/34] fix: Queue.Pop could report the end of the Queue while
 there was an entry

---
 pipelines/stagedpipe/internal/queue/queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/internal/queue/queue.go b/pipelines/stagedpipe/internal/queue/queue.go
index 14628b0..be98794 100644
--- a/pipelines/stagedpipe/internal/queue/queue.go
+++ b/pipelines/stagedpipe/internal/queue/queue.go
@@ -59,12 +59,14 @@ func (q *Queue[A]) Pop() (val A, ok bool) {
 
 	var s time.Duration
 	for {
+		// Must be loaded before the pop, otherwise an entry that was pushed in between is missed.
+		closed := q.closed.Load()
 		a, ok := q.queue.pop()
 		if ok {
 			return a, ok
 		}
 
-		if q.closed.Load() {
+		if closed {
 			return a, ok
 		}
 
-- 
2.43.0


From 4b308147fd0ed62d59e87d938afdbc1fac6e57ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 25/34] fix: stagedpipe-cli wrote a main.go that did not
 compile for many package names

---
 pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl
index 573f44d..7e524c9 100644
--- a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl
+++ b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl
@@ -8,7 +8,7 @@ import (
     "runtime"
 
     "github.com/gostdlib/concurrency/pipelines/stagedpipe"
-    "{{ .PackagePath }}"
+    sm "{{ .PackagePath }}"
 )
 
 var parallelism = runtime.NumCPU()
@@ -20,13 +20,13 @@ func main() {
 	ctx := context.Background()
     
     // Create the StateMachine implementation that will be used in our pipeline.
-    xsm, err := {{ .PackageName }}.NewSM()
+    xsm, err := sm.NewSM()
     if err != nil {
         log.Fatalf("cannot start state machine: %s", err)
     }
 
     // Create our parallel and concurrent Pipeline from our StateMachine.
-    pipeline, err := stagedpipe.New[{{ .PackageName }}.Data]("pipeline name", parallelism, xsm)
+    pipeline, err := stagedpipe.New[sm.Data]("pipeline name", parallelism, xsm)
     if err!= nil {
         log.Fatalf("cannot create a pipeline: %s", err)
     }
@@ -83,7 +83,7 @@ func main() {
         if reqCtx.Err() != nil {
             break
         }
-        req := {{ .PackageName }}.NewRequest(reqCtx, {{ .PackageName }}.Data{Item: i})
+        req := sm.NewRequest(reqCtx, sm.Data{Item: i})
         if err := rg.Submit(req); err != nil {
             log.Fatalf("problem submitting request to the pipeline: %s", err)
             break
-- 
2.43.0


From a8da4d2395c39c319a8d51d69cec072b056f46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 26/34] fix: register.Pools never closed its channel and held
 the lock until it was read

---
 goroutines/internal/register/register.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index e570dd1..a4dab72 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -72,13 +72,13 @@ func NewName(name string) string {
 
 // Pools returns all pools registered by this package. Order is non-deterministic.
 func Pools() chan goroutines.Pool {
-	ch := make(chan goroutines.Pool, 1)
-	go func() {
-		mu.RLock()
-		defer mu.RUnlock()
-		for _, p := range registry {
-			ch <- p
-		}
-	}()
+	mu.RLock()
+	defer mu.RUnlock()
+
+	ch := make(chan goroutines.Pool, len(registry))
+	for _, p := range registry {
+		ch <- p
+	}
+	close(ch)
 	return ch
 }
-- 
2.43.0


From dafc25f4c6c6475375645f3e75f09836a21c953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 27/34] fix: a job that calls runtime.Goexit() no longer takes
 a goroutine of a pooled.Pool with it

Wait() and Close() hung after such a job, and the pool was one goroutine smaller.
---
 goroutines/pooled/goroutines.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 70308e2..c0a1747 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -205,22 +205,34 @@ func (p *Pool) blockEvent(spanner span.Span, fcn string, t time.Time) {
 
 // runner is used to run any function that comes in on the in channels.
 func (p *Pool) runner() {
+	closed := false
+	defer func() {
+		if !closed { // A job ended our goroutine with runtime.Goexit().
+			go p.runner()
+		}
+	}()
 	for {
 		var s submit
 		var ok bool
 		select {
 		case s, ok = <-p.queue:
 			if !ok {
+				closed = true
 				return
 			}
 		case s = <-p.direct:
 		}
-		s.job(s.ctx)
-		p.running.Add(-1)
-		p.wg.Done()
+		p.run(s)
 	}
 }
 
+// run runs a single job.
+func (p *Pool) run(s submit) {
+	defer p.wg.Done()
+	defer p.running.Add(-1)
+	s.job(s.ctx)
+}
+
 func (p *Pool) callerName(opts pool.SubmitOptions) string {
 	if opts.Caller != "" {
 		return opts.Caller
-- 
2.43.0


From 4525db16ec51e05496f8800b671e0ddf6fdde6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 28/34] fix: DAG() detects a cycle back to a Start() that comes
 from an embedded interface

The name of Start() was not the one that a Stage naming it as Next has.
---
 pipelines/stagedpipe/stagedpipe.go | 68 +++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 11aef95..073823e 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -867,36 +867,56 @@ func numStages[T any](sm any) int {
 // startName returns the name that methodName() has for the Start() method of t when a Stage
 // names it as the next Stage. Taking it from the StateMachine interface gives another name.
 func startName(t reflect.Type) string {
-	m, ok := t.MethodByName("Start")
-	if !ok {
-		return ""
-	}
-	fn := runtime.FuncForPC(m.Func.Pointer())
-	if file, _ := fn.FileLine(fn.Entry()); file != "<autogenerated>" {
-		return methodName(m.Func.Interface())
-	}
-
-	// This is a wrapper around the method of the type that t points to or embeds.
-	if t.Kind() == reflect.Pointer {
-		t = t.Elem()
-		if _, ok := t.MethodByName("Start"); ok {
-			return startName(t)
-		}
-	}
-	if t.Kind() == reflect.Struct {
-		for i := 0; i < t.NumField(); i++ {
-			f := t.Field(i)
-			if !f.Anonymous || f.Type.Kind() == reflect.Interface {
+	// The method can be that of a type or interface that t points to or embeds. As in the language,
+	// the one that is embedded the least deep is the one that counts.
+	level := []reflect.Type{t}
+	for depth := 0; len(level) > 0 && depth < 100; depth++ {
+		var next []reflect.Type
+		for _, t := range level {
+			if t.Kind() == reflect.Pointer {
+				t = t.Elem()
+			}
+			if t.Kind() == reflect.Interface {
+				if _, ok := t.MethodByName("Start"); ok {
+					return interfaceName(t) + ".Start"
+				}
 				continue
 			}
-			for _, e := range []reflect.Type{f.Type, reflect.PointerTo(f.Type)} {
-				if _, ok := e.MethodByName("Start"); ok {
-					return startName(e)
+			for _, e := range []reflect.Type{t, reflect.PointerTo(t)} {
+				m, ok := e.MethodByName("Start")
+				if !ok {
+					continue
+				}
+				fn := runtime.FuncForPC(m.Func.Pointer())
+				if file, _ := fn.FileLine(fn.Entry()); file != "<autogenerated>" { // Not a wrapper.
+					return methodName(m.Func.Interface())
+				}
+			}
+			if t.Kind() == reflect.Struct {
+				for i := 0; i < t.NumField(); i++ {
+					if f := t.Field(i); f.Anonymous {
+						next = append(next, f.Type)
+					}
 				}
 			}
 		}
+		level = next
+	}
+	if m, ok := t.MethodByName("Start"); ok {
+		return methodName(m.Func.Interface())
+	}
+	return ""
+}
+
+// interfaceName returns the name of an interface in the form that is used in the names of functions.
+func interfaceName(t reflect.Type) string {
+	name, _, generic := strings.Cut(t.Name(), "[")
+	if generic {
+		name += "[...]"
 	}
-	return methodName(m.Func.Interface())
+	path := t.PkgPath()
+	i := strings.LastIndexByte(path, '/') + 1
+	return path[:i] + strings.ReplaceAll(path[i:], ".", "%2e") + "." + name
 }
 
 // methodName takes a function or a method and returns its name.
-- 
2.43.0


From 82f42dac0d997476418345b9012cf1708d2d296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 29/34] fix: wait.Group.Wait no longer hangs after the Pool
 refused a function

Submit() returns an error, for example if an option of another kind of Pool is used. Go() ignored it, so
Wait(), and with it slices.Access(), chans.Access() and chans.Modify(), waited for ever for a function that
is never run.
---
 prim/wait/wait.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 548426d..de3a950 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -144,7 +144,7 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	}
 
 	w.wg.Add(1)
-	w.Pool.Submit(
+	err := w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
 			defer w.wg.Done()
@@ -164,6 +164,14 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 		},
 		w.PoolOptions...,
 	)
+	if err != nil { // The Pool refused f, so nothing above is ever run.
+		applyErr(&w.errors, err)
+		if w.CancelOnErr != nil {
+			w.CancelOnErr()
+		}
+		w.count.Add(-1)
+		w.wg.Done()
+	}
 }
 
 // Running returns the number of goroutines that are currently running.
-- 
2.43.0


From fc0f2ce7ed1943f787583dab24c188477925556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:09 +0000
Subject: [PATCH 30/34] fix: OTEL events of pools named Submit() itself as the
 caller

---
 goroutines/limited/goroutines.go | 2 +-
 goroutines/pooled/goroutines.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 358b8eb..d0adaa1 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -208,7 +208,7 @@ func (p *Pool) callerName(opts pool.SubmitOptions) string {
 		return opts.Caller
 	}
 
-	pc, _, _, ok := runtime.Caller(1)
+	pc, _, _, ok := runtime.Caller(2) // The caller of Submit().
 	details := runtime.FuncForPC(pc)
 	if ok && details != nil {
 		return details.Name()
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index c0a1747..3496f1a 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -238,7 +238,7 @@ func (p *Pool) callerName(opts pool.SubmitOptions) string {
 		return opts.Caller
 	}
 
-	pc, _, _, ok := runtime.Caller(1)
+	pc, _, _, ok := runtime.Caller(2) // The caller of Submit().
 	details := runtime.FuncForPC(pc)
 	if ok && details != nil {
 		return details.Name()
-- 
2.43.0


From 9b05e0dd6dbeff8ecc0d4f97825b9180a07c5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:09 +0000
Subject: [PATCH 31/34] fix: the OTEL events of pooled.Pool misspelled the
 package

---
 goroutines/pooled/goroutines.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 3496f1a..30a805c 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -184,7 +184,7 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 func (p *Pool) submitEvent(spanner span.Span, fcn string, nonBlock bool, t time.Time) {
 	spanner.Event(
 		"Pool.Submit() called",
-		"pkg", "github.com/gostdlib/concurrency/gorouintes/pooled",
+		"pkg", "github.com/gostdlib/concurrency/goroutines/pooled",
 		"caller", fcn,
 		"name", p.name,
 		"non_blocking", nonBlock,
-- 
2.43.0


From 39dd92d17463def8c6d86ddfa5b2210de0a20e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:09 +0000
Subject: [PATCH 32/34] fix: OTEL events with a time were refused by the span
 and never recorded

---
 pipelines/stagedpipe/stagedpipe.go |  6 +++---
 prim/wait/wait.go                  | 13 +++++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 073823e..5a7f4ed 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -611,7 +611,7 @@ func (r *RequestGroup[T]) otelStart() {
 	if r.span.Span == nil || !r.span.Span.IsRecording() {
 		return
 	}
-	r.span.Event("Started Submit()", "time_ns", r.started.Load())
+	r.span.Event("Started Submit()", "time_ns", r.started.Load().UnixNano())
 }
 
 func (r *RequestGroup[T]) otelEnd() {
@@ -808,13 +808,13 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string)
 	r.Ctx, r.span = span.New(r.Ctx, stageName)
 	stageSpan := r.span
 
-	r.Event(stageName, "start", time.Now())
+	r.Event(stageName, "start", time.Now().UnixNano())
 	defer func() {
 		out.span = parentSpan
 		if !stageSpan.IsRecording() {
 			return
 		}
-		stageSpan.Event(stageName, "end", time.Now())
+		stageSpan.Event(stageName, "end", time.Now().UnixNano())
 		stageSpan.End()
 		if out.Ctx != nil { // The Stage can have set another Context.
 			out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index de3a950..b9f94b7 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -108,14 +108,14 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 			w.span.Event(
 				fmt.Sprintf("wait(%s) start", w.Name),
 				"name", w.Name,
-				"start", w.start,
+				"start", w.start.UnixNano(),
 			)
 		}
 	})
 
 	t := time.Now().UTC()
 	if w.span.Span != nil {
-		w.span.Event("Go", "start", t)
+		w.span.Event("Go", "start", t.UnixNano())
 		ctx = trace.ContextWithSpan(ctx, w.span.Span)
 	}
 
@@ -194,7 +194,7 @@ func (w *Group) Wait(ctx context.Context) error {
 		w.span.Event(
 			fmt.Sprintf("wait(%s) end", w.Name),
 			"name", w.Name,
-			"end", end.UTC(),
+			"end", end.UnixNano(),
 			"elapsed_ns", end.Sub(now),
 		)
 		if w.span.IsRecording() {
@@ -232,18 +232,19 @@ func (w *Group) waitOTELStart() {
 		"total goroutines", w.total.Load(),
 		"cancelOnErr", w.CancelOnErr != nil,
 		"using pool", w.Pool != nil,
-		"start:", time.Now().UTC(),
+		"start:", time.Now().UnixNano(),
 	)
 }
 
 // waitOTELEnd is called when Wait() is finished and will log information to the span.
 func (w *Group) waitOTELEnd(t time.Time) {
 	if w.span.IsRecording() {
+		end := time.Now().UTC()
 		w.span.Event(
 			"wait.Group.Wait() done",
 			"name", w.Name,
-			"end", t,
-			"elapsed_ns", time.Now().UTC().Sub(t),
+			"end", end.UnixNano(),
+			"elapsed_ns", end.Sub(t),
 		)
 	}
 }
-- 
2.43.0


From 2de77e67af2d23cb47b0bec9ceb08f89dd0027b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:28 +0000
Subject: [PATCH 33/34] fix: only the first Request of a RequestGroup without a
 name had "unnamed" in its span's name

---
 pipelines/stagedpipe/stagedpipe.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 5a7f4ed..35edb4b 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -540,12 +540,11 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 
 	// If the group isn't named, name it.
 	gName := r.Name
+	if gName == "" {
+		gName = "unnamed"
+	}
 
 	r.startOnce.Do(func() {
-		if r.Name == "" {
-			gName = "unnamed"
-		}
-
 		req.Ctx, r.span = span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s)", gName))
 
 		// Record the time the first request was submitted.
-- 
2.43.0


From 8329243fc31c81344b725d08568ad24c012d4530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:08 +0000
Subject: [PATCH 34/34] fix: no event and no error was ever recorded on an OTEL
 span

Span.Event() and Span.Error() of gostdlib/internals hand their keyvalues on as one value, refuse it as
not being an even number of values and return that error, which nothing looks at.
---
 goroutines/limited/goroutines.go   |   2 +-
 goroutines/pooled/goroutines.go    |   2 +-
 internal/otel/span/span.go         | 142 +++++++++++++++++++++++++++++
 pipelines/stagedpipe/stagedpipe.go |   2 +-
 prim/chans/chans.go                |   2 +-
 prim/slices/slice.go               |   2 +-
 prim/wait/wait.go                  |   2 +-
 7 files changed, 148 insertions(+), 6 deletions(-)
 create mode 100644 internal/otel/span/span.go

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index d0adaa1..0dd8221 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -21,7 +21,7 @@ import (
 	"github.com/gostdlib/concurrency/goroutines"
 	"github.com/gostdlib/concurrency/goroutines/internal/pool"
 	"github.com/gostdlib/concurrency/goroutines/internal/register"
-	"github.com/gostdlib/internals/otel/span"
+	"github.com/gostdlib/concurrency/internal/otel/span"
 )
 
 var _ goroutines.Pool = &Pool{}
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 30a805c..8a732e0 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -17,7 +17,7 @@ import (
 	"github.com/gostdlib/concurrency/goroutines"
 	"github.com/gostdlib/concurrency/goroutines/internal/pool"
 	"github.com/gostdlib/concurrency/goroutines/internal/register"
-	"github.com/gostdlib/internals/otel/span"
+	"github.com/gostdlib/concurrency/internal/otel/span"
 )
 
 var _ goroutines.Pool = &Pool{}
diff --git a/internal/otel/span/span.go b/internal/otel/span/span.go
new file mode 100644
index 0000000..41a55dc
--- /dev/null
+++ b/internal/otel/span/span.go
@@ -0,0 +1,142 @@
+/*
+Package span is github.com/gostdlib/internals/otel/span with working events and errors: at the version we
+use, Span.Event() and Span.Error() of that package pass on their keyvalues as a single value, which then is
+refused because it isn't an even number of values, so nothing is ever recorded. This can be removed when
+that is fixed there.
+*/
+package span
+
+import (
+	"context"
+	"fmt"
+	"time"
+
+	"go.opentelemetry.io/otel/attribute"
+	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/trace"
+
+	"github.com/gostdlib/internals/otel/span"
+)
+
+// Span represents an OTEL span for recording events to.
+type Span struct {
+	// Span is the OTEL trace.Span.
+	Span trace.Span
+}
+
+// New creates a new child span object from the span stored in Context. If that Span is
+// a noOp, the child span will be a noop too.
+func New(ctx context.Context, name string, options ...trace.SpanStartOption) (context.Context, Span) {
+	ctx, s := span.New(ctx, name, options...)
+	return ctx, Span{Span: s.Span}
+}
+
+// Get returns the Span for recording events. This retrieves the OTEL span from the
+// Context object. If the OTEL span is a noop, then all events will also be a noop.
+func Get(ctx context.Context) Span {
+	return Span{Span: span.Get(ctx).Span}
+}
+
+// Event records an event with name and keyvalues. keyvalues must be an even number
+// with every even value a string representing the key, with the following value representing
+// the value associated with that key. The following values are supported:
+//   - bool/[]bool
+//   - float64/[]float64
+//   - int/[]int
+//   - int64/[]int64
+//   - string/[]string
+//   - time.Duration/[]time.Duration
+func (s Span) Event(name string, keyValues ...any) error {
+	if !s.IsRecording() {
+		return nil
+	}
+	if name == "" {
+		return fmt.Errorf("must provide an event name")
+	}
+
+	attrs, err := attributes(keyValues)
+	if err != nil {
+		return err
+	}
+	s.Span.AddEvent(name, trace.WithAttributes(attrs...), trace.WithTimestamp(time.Now().UTC()))
+	return nil
+}
+
+// Error records an error on the Span. This does not set the status of the span. If you
+// want to set the status as well, use Status(). keyvalues are as in Event().
+func (s Span) Error(e error, keyValues ...any) error {
+	if !s.IsRecording() {
+		return nil
+	}
+
+	attrs, err := attributes(keyValues)
+	if err != nil {
+		return err
+	}
+	s.Span.RecordError(e, trace.WithAttributes(attrs...), trace.WithTimestamp(time.Now().UTC()))
+	return nil
+}
+
+// IsRecording returns true if the span is recording events. This
+// is safe to call even if the span is nil.
+func (s Span) IsRecording() bool {
+	return s.Span != nil && s.Span.IsRecording()
+}
+
+// Status records a status for the span.
+func (s Span) Status(code codes.Code, description string) {
+	s.Span.SetStatus(code, description)
+}
+
+// End ends the span.
+func (s Span) End() {
+	s.Span.End()
+}
+
+// attributes makes OTEL attributes of keyValues.
+func attributes(keyValues []any) ([]attribute.KeyValue, error) {
+	if len(keyValues)%2 != 0 {
+		return nil, fmt.Errorf("event keyvalues must be an even number")
+	}
+
+	attrs := make([]attribute.KeyValue, 0, len(keyValues)/2)
+	for i := 0; i < len(keyValues); i += 2 {
+		k, ok := keyValues[i].(string)
+		if !ok {
+			return nil, fmt.Errorf("keyvalue(%v) was not a string type required for keys", keyValues[i])
+		}
+		switch v := keyValues[i+1].(type) {
+		case bool:
+			attrs = append(attrs, attribute.Bool(k, v))
+		case []bool:
+			attrs = append(attrs, attribute.BoolSlice(k, v))
+		case float64:
+			attrs = append(attrs, attribute.Float64(k, v))
+		case []float64:
+			attrs = append(attrs, attribute.Float64Slice(k, v))
+		case int:
+			attrs = append(attrs, attribute.Int(k, v))
+		case []int:
+			attrs = append(attrs, attribute.IntSlice(k, v))
+		case int64:
+			attrs = append(attrs, attribute.Int64(k, v))
+		case []int64:
+			attrs = append(attrs, attribute.Int64Slice(k, v))
+		case string:
+			attrs = append(attrs, attribute.String(k, v))
+		case []string:
+			attrs = append(attrs, attribute.StringSlice(k, v))
+		case time.Duration:
+			attrs = append(attrs, attribute.String(k, v.String()))
+		case []time.Duration:
+			sl := make([]string, 0, len(v))
+			for _, d := range v {
+				sl = append(sl, d.String())
+			}
+			attrs = append(attrs, attribute.StringSlice(k, sl))
+		default:
+			return nil, fmt.Errorf("keyvalue(%v) had error: %T is not supported", k, v)
+		}
+	}
+	return attrs, nil
+}
diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 35edb4b..13c9ced 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -89,7 +89,7 @@ import (
 	"go.opentelemetry.io/otel/codes"
 	"go.opentelemetry.io/otel/trace"
 
-	"github.com/gostdlib/internals/otel/span"
+	"github.com/gostdlib/concurrency/internal/otel/span"
 
 	"github.com/go-json-experiment/json"
 )
diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 8026155..b6b851d 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -81,7 +81,7 @@ import (
 	"github.com/gostdlib/concurrency/goroutines"
 	"github.com/gostdlib/concurrency/goroutines/limited"
 	"github.com/gostdlib/concurrency/prim/wait"
-	"github.com/gostdlib/internals/otel/span"
+	"github.com/gostdlib/concurrency/internal/otel/span"
 	"github.com/johnsiilver/calloptions"
 )
 
diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index 2c31fa1..500e097 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -8,7 +8,7 @@ import (
 	"github.com/gostdlib/concurrency/goroutines"
 	"github.com/gostdlib/concurrency/goroutines/limited"
 	"github.com/gostdlib/concurrency/prim/wait"
-	"github.com/gostdlib/internals/otel/span"
+	"github.com/gostdlib/concurrency/internal/otel/span"
 	"github.com/johnsiilver/calloptions"
 )
 
diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index b9f94b7..be088ec 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -32,7 +32,7 @@ import (
 	"time"
 
 	"github.com/gostdlib/concurrency/goroutines"
-	"github.com/gostdlib/internals/otel/span"
+	"github.com/gostdlib/concurrency/internal/otel/span"
 
 	"go.opentelemetry.io/otel/trace"
 )
-- 
2.43.0

