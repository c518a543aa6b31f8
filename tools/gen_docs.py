#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The one place where the properties are stated."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SP = "pipelines/stagedpipe/stagedpipe.go"
ST = "pipelines/stagedpipe/stats.go"
GP, GL, GR = "goroutines/pooled/goroutines.go", "goroutines/limited/goroutines.go", "goroutines/goroutines.go"
PO, RE = "goroutines/internal/pool/pool.go", "goroutines/internal/register/register.go"
WA, SL, CH, AT = "prim/wait/wait.go", "prim/slices/slice.go", "prim/chans/chans.go", "prim/atomics/atomics.go"
SLO, CHO = "prim/slices/options.go", "prim/chans/options.go"
QU = "pipelines/stagedpipe/internal/queue/queue.go"
CLI = "pipelines/stagedpipe/tools/stagedpipe-cli/cmd/"
OTEL = "prim/wait/wait.go"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


SCHED = "generated cases on a controlled schedule (schedule points before every statement and around every atomic operation, race detector on)"
MODEL = "property-based testing: generated programs of concurrent calls under perturbed schedules, judged by "

prop("C01", "Pools run every accepted job exactly once, with its own context",
     "Every job that Submit of a pooled or limited pool accepts is run exactly once, with the context that was passed to Submit, however many goroutines submit at once. A Submit that returns an error (no job, or an option of the other kind of pool) never runs its job.",
     ["schedules", "histories", "inputs"], "every kind and size of pool, every mix of options and every history of concurrent Submit, Wait and Close calls",
     "The tests submit plain jobs from one goroutine and count results; lost, doubled or swapped jobs need particular interleavings of submitters, idle goroutines and Close.",
     [GP, GL, PO], [("Submit hands the job to an idle goroutine or a new one", GP), ("Submit starts a goroutine when a slot is free", GL)],
     MODEL + "per-job run counters and context identity", "Exactly-once is counted for every job of every generated case, with exact quiescent-point checks in virtual time.")

prop("C02", "A pool of size N never runs more than N capped jobs, and uses all N",
     "At no time do more than N jobs submitted without NonBlocking run in a pool of size N. A job waits only while N jobs are in the pool: whenever fewer than N jobs are being run, no submitted job is left waiting.",
     ["schedules", "histories", "configurations"], "every size, kind of pool and history of submissions, including NonBlocking ones mixed in",
     "The tests never measure how many jobs run at once; a slot given back too early, twice or never shows only under overlap and later reuse.",
     [GP, GL, PO], [("semaphore channel of the limited pool", GL), ("queue and fixed goroutines of the pooled pool", GP)],
     MODEL + "a count of running jobs and a model of the slots at every quiescent point", "Peak concurrency is exact; utilisation is judged at points where nothing else can move (virtual time).")

prop("C03", "NonBlocking submissions never wait for the pool",
     "A Submit with the NonBlocking option returns without waiting, and its job is started, even if all goroutines of the pool are taken by jobs that never end. Jobs submitted that way do not take slots away from the other jobs for longer than they run.",
     ["schedules", "histories"], "every state of the pool at the time of the NonBlocking submission",
     "The tests use NonBlocking only in pools that drain by themselves, where a job stuck in the queue is started a moment later.",
     [GP, GL], [("NonBlocking options", GP + " and " + GL)],
     MODEL + "quiescence: the job must have started when nothing else can move", "Jobs hold gates which the case opens later, so 'never waits' is decided exactly, without timeouts.")

prop("C04", "Wait and Close of a pool are barriers, end, and leave no goroutine behind",
     "When Wait or Close of a pool returns, every job submitted before it was called has finished; both return once the jobs have returned or ended their goroutine. A pool can be used again after Wait, and after Close has returned none of its goroutines are left.",
     ["schedules", "histories"], "every history of rounds of submissions, Wait from several goroutines, and Close",
     "The tests call Wait once after submissions from the same goroutine; barriers that return early or goroutines left behind show in particular interleavings and are not looked for.",
     [GP, GL, PO], [("Wait and Close", GP), ("Wait and Close", GL)],
     MODEL + "finish counters at the return of Wait/Close, deadlock and leak detection of the synctest bubble", "Deadlock and leak detection are exact in virtual time.")

prop("C05", "Open pools have unique, stable names, and names become free on Close",
     "No two pools that are open at the same time have the same name, whatever names were asked for and however many are made at once; a pool gets the name asked for if no open pool has it, and otherwise one that begins with it. New returns for every valid argument, refuses names with digits, hyphens or white space and sizes below 1, and a pool's name never changes.",
     ["histories", "inputs", "schedules"], "every sequence of concurrent New and Close calls with generated names, including names that collide with generated suffixes",
     "The tests make one pool of each name.",
     [GP, GL, PO, RE], [("pool registry", PO + " and " + RE)],
     MODEL + "a model of the set of open names", "Includes names shaped like the generated ones.")

prop("C06", "Running and Len of a pool tell the truth",
     "Len is the size the pool was made with. Running is never below the number of jobs being executed nor above the number submitted and unfinished, and it is 0 once Wait or Close has returned.",
     ["schedules", "histories"], "every history of submissions and every point at which the counters are read",
     "The tests do not read these counters while jobs run.",
     [GP, GL], [("running counter", GP + " and " + GL)],
     MODEL + "a model of the executing and unfinished jobs", "Exact at quiescent points; bounds elsewhere.")

prop("C07", "goroutines.Errors keeps every error, in order, under concurrency",
     "Every error recorded in an Errors is kept exactly once, in the order in which each goroutine recorded them; a later snapshot extends an earlier one. Error returns the first of them (nil if there are none), and all methods can be called concurrently without a data race.",
     ["schedules", "histories"], "every number of concurrent writers and readers and every interleaving",
     "There is no test of Errors.",
     [GR], [("mutex and slice of errors", GR)],
     MODEL + "a per-writer sequence model and the race detector", "Snapshots must be prefixes of later ones.")

prop("C08", "wait.Group runs every function once and Wait is a barrier",
     "Every function given to Go of a wait.Group with a live context runs exactly once, with the context given to Go, and has returned (or ended its goroutine) when Wait returns; one whose context was over before Go is not run. Wait returns once the functions can finish, with or without a pool of any size.",
     ["schedules", "histories", "configurations"], "every set of functions, pool, context state and interleaving of Go calls, also from inside functions of the group",
     "The tests use a few sleeping functions from one goroutine.",
     [WA], [("Group.Go and Group.Wait", WA)],
     MODEL + "run counters and a model of which contexts were over", "Deadlocks are detected exactly.")

prop("C09", "wait.Group reports every error",
     "Wait returns nil if and only if no function of the group failed and none was skipped for its context; otherwise its error leads (errors.Is and errors.As) to every error that the functions returned. The cause of a context cancelled by CancelOnErr is the first of these errors.",
     ["schedules", "inputs"], "every set of failing functions, errors (wrapped, joined, typed, equal) and orders in which they end",
     "The tests have at most one distinct error at a time.",
     [WA], [("collection of errors in Group", WA)],
     MODEL + "the set of errors returned", "Errors of many shapes, including repeated and wrapped ones.")

prop("C10", "CancelOnErr cancels exactly when a function fails",
     "With CancelOnErr set, the cancel function is called as soon as a function of the group returns an error, without waiting for the others, and it is not called while no function has failed and some are unfinished. It has been called when Wait returns.",
     ["schedules", "fault_sequences"], "every order in which functions end or fail",
     "The tests check the context after Wait only, which also holds if cancelling came late.",
     [WA], [("CancelOnErr in Group.execute", WA)],
     MODEL + "quiescent points between a failure and the end of the others", "Functions are held open at gates, so early and late cancelling are told apart.")

prop("C11", "wait.Group can be reused after Wait, and Running is right",
     "After Wait has returned, a wait.Group can be used for further rounds, and errors, cancellation and counts of one round do not show in the next. Running is never below the number of functions being executed nor above the number started and unfinished, and is 0 after Wait.",
     ["histories", "schedules"], "every sequence of rounds of Go and Wait",
     "The tests use a group once, and never read Running while functions run.",
     [WA], [("reset of the Group in Wait", WA)],
     MODEL + "a model of each round", "Rounds differ in errors, pools and contexts.")

prop("C12", "slices.Access calls its accessor once per element, with a modifier of its own",
     "If nothing stops it, slices.Access calls the accessor exactly once for every index, with that element's value and a function that sets that very element at once. What the accessors write is in the slice when Access returns, other elements are as before, and there is no data race.",
     ["inputs", "schedules", "configurations"], "every length, element values, pool and interleaving",
     "The tests use a handful of slices and writes that do not depend on the index.",
     [SL, SLO], [("Access", SL)],
     MODEL + "a sequential application of the same accessors", "Differential against the sequential result.")

prop("C13", "slices.Access stops on error or cancellation and reports it",
     "The error of slices.Access is nil if and only if every element was processed without error; otherwise it leads to every accessor error (or the first, if it was told to stop on the first error) or to the reason of the context. With that option, or once the context is over, no further accessor is started after those already being started, and Access returns only after all that were started have finished.",
     ["inputs", "schedules", "fault_sequences"], "every pattern of failing accessors, cancellation times, options and pools",
     "The tests check one failing element; early return and late starts need particular interleavings.",
     [SL, SLO], [("Access, WithStopOnErr", SL + ", " + SLO)],
     MODEL + "the accessors' own record of errors and starts", "Exact in virtual time.")

prop("C14", "chans.Access processes every value of the channel exactly once",
     "If nothing stops it, chans.Access calls the function exactly once for every value received from the channel, and returns after the channel was closed and all calls have finished. It returns nil if and only if all values were processed without error, and otherwise an error that leads to those of the calls.",
     ["inputs", "schedules", "configurations"], "every sequence of values, channel buffer, pool and interleaving with the sender",
     "There is no test of the package.",
     [CH, CHO], [("Access", CH)],
     MODEL + "call counts per value", "Exact in virtual time.")

prop("C15", "chans.Modify gives exactly one result for each value and closes its output",
     "If nothing stops it, chans.Modify sends exactly one result for every value received: what the function returned for it, value or error. The output is closed exactly once, after the last result, and never sent on after that; nil channels are refused with an error.",
     ["inputs", "schedules", "configurations"], "every sequence of values, buffers, pools, slow or absent readers and interleavings",
     "There is no test of the package.",
     [CH, CHO], [("Modify", CH)],
     MODEL + "the multiset of results the functions gave", "Sends on or closes of a closed channel crash the case and are reported.")

prop("C16", "chans operations end when cancelled or stopped, whatever the channels do",
     "Once the context is over, or a call failed with the option to stop on errors, chans.Access and chans.Modify start no further calls beyond those already being started, and return after those have finished, even if nobody sends on the input or reads the output any more. The error returned leads to the reason of the context or to the error that stopped it.",
     ["schedules", "fault_sequences"], "every time of cancellation or failure and every state of the channels",
     "There is no test of the package.",
     [CH, CHO], [("Access and Modify", CH), ("options", CHO)],
     MODEL + "deadlock detection and the functions' own record", "Idle inputs and unread outputs are generated on purpose.")

prop("C17", "slices and chans stay within the pool they are given, and leave it usable",
     "With WithPool or WithPoolOptions, slices.Access, chans.Access and chans.Modify run their functions in that pool and with those options: never more at once than the pool allows (or than the number of CPUs without a pool), sharing it with its other users, and not waiting for it when NonBlocking is given. They use as much of the pool as there is, and the pool can be used afterwards.",
     ["schedules", "configurations"], "every kind, size and occupation of pool and every set of options",
     "The tests pass a pool and look at results only.",
     [SL, SLO, CH, CHO], [("WithPool and WithPoolOptions", SLO + ", " + CHO)],
     MODEL + "peak concurrency and quiescence with a pool that others occupy", "Rendezvous cases need all slots at once, so unused slots show as deadlock.")

prop("C18", "RWValue is a linearizable register",
     "Every history of concurrent Load, Store and LoadReplace calls on an RWValue can be ordered one after the other, consistent with real time, so that each Load returns the value last written, and each LoadReplace function is given the current value and replaces it with nothing written in between.",
     ["histories", "schedules"], "every history of concurrent operations and every interleaving",
     "The test runs one sequence of calls with assertions that hold for most wrong implementations.",
     [AT], [("atomic pointer and write lock", AT)],
     MODEL + "a linearizability checker (porcupine)", "Histories of up to a few dozen operations, checked completely.")

prop("C19", "RWValue loads never wait, and a failed LoadReplace changes nothing",
     "Load on an RWValue returns at once even while a LoadReplace function is running. LoadReplace calls its function exactly once; if that returns an error, panics or ends its goroutine, the value is unchanged, the error or panic reaches the caller, and the RWValue stays usable.",
     ["schedules", "fault_sequences"], "every operation in flight and every way in which the function can end",
     "The test has no failing function and no concurrent Load.",
     [AT], [("LoadReplace", AT)],
     MODEL + "quiescence (Load must return while the function is held) and a model of the value", "Exact in virtual time.")

prop("C20", "Pipelines deliver every request exactly once, to its own group",
     "Every request that Submit of a RequestGroup accepts comes out of that group's Out channel exactly once, with the data its own stages gave it, and of no other group's. After the group was closed and everything came out, Out is closed; requests whose Submit failed never come out.",
     ["schedules", "inputs", "histories", "configurations"], "every state machine, number of pipelines, set of groups and interleaving of submitters and readers",
     "The tests push a fixed data set through one fixed machine with one schedule per run.",
     [SP], [("demultiplexer and group accounting", SP)],
     MODEL + "a reference interpretation of every request's route", "Requests are traced stage by stage.")

prop("C21", "Requests take exactly the route their stages name",
     "A request goes through the preprocessors in order and then exactly the stages its Next fields name, one at a time, starting with Start, with Next reset before each stage; a stage that leaves Next unset ends the route. Once Err is set no further stage or preprocessor is run, and the request comes out with that error.",
     ["inputs", "programs", "configurations"], "every generated state machine and route, with stages shared as sub stages, loops and failing steps",
     "The tests use straight machines of three or so stages.",
     [SP], [("runner.runStage and preprocessors", SP)],
     MODEL + "a reference interpreter of the route", "The full trace of every request is compared.")

prop("C22", "Ordered pipelines emit in submission order",
     "With the Ordered option, the requests of a RequestGroup come out in the order in which they were submitted, whatever time their stages take, whichever fail or are cancelled, and none is held back for ever by a Submit that failed.",
     ["schedules", "inputs", "fault_sequences"], "every mix of durations, failures and cancelled submits",
     "The test uses one group, successful requests and short sleeps.",
     [SP], [("order heap per group", SP)],
     MODEL + "the order of submission", "Virtual time makes long overtakings cheap.")

prop("C23", "With DAG a request that comes to a stage twice ends in a cyclic error",
     "With the DAG option, a request for which a stage comes up for the second time comes out with an error that IsErrCyclic reports, and that stage is not run again. No other request gets such an error, nor does any without the option, whatever requests went through the same pipelines before or at the same time.",
     ["inputs", "programs", "histories"], "every generated state machine with and without cycles, and every mix of requests",
     "The test has one cyclic machine and one request.",
     [SP], [("seenStages", SP)],
     MODEL + "a reference interpreter that counts visits", "Reuse of records between requests is covered by many requests per case.")

prop("C24", "X pipelines of N stages process X*N stages at once, and no more",
     "With X pipelines and N stages, X*N stages can be executed at the same time, and no more ever are, where N is the number of stages of the machine, including the sub stages that CountSubStages adds.",
     ["configurations", "schedules"], "every number of pipelines and stages and every set of blocked stages",
     "The tests never look at how many stages run at once.",
     [SP], [("runners per pipeline", SP), ("CountSubStages", SP)],
     MODEL + "a peak count and quiescence with stages that wait for each other", "Too few runners show as a deadlock of a rendezvous.")

prop("C25", "A cancelled context ends a request early and cleanly",
     "If the context of a request is over before Submit, Submit fails with the reason or the request comes out with it as its Err without any stage run; if it ends later, no stage is started after that beyond one already being started, and the request comes out with the reason as its Err. A Submit that cannot proceed returns with the reason when its context ends, and other requests are not affected.",
     ["fault_sequences", "schedules"], "every time of cancellation relative to the steps of a request",
     "The tests never cancel a request.",
     [SP], [("context checks in Submit and runner", SP)],
     MODEL + "the trace of every request and a log of the cancellations", "Cancellation by stages, by timers and before Submit.")

prop("C26", "Closing pipelines closes the state machine once and leaves nothing running",
     "After Close of the Pipelines has been called and everything submitted came out, the state machine has been closed exactly once, not while a stage or preprocessor is running and with none run afterwards. No goroutine of the Pipelines is left, and neither Close hangs.",
     ["schedules", "histories"], "every history of groups, submissions and Close calls",
     "The tests do not look at the state machine's Close or at goroutines.",
     [SP], [("Pipelines.Close", SP), ("RequestGroup.Close", SP)],
     MODEL + "close counters, deadlock and leak detection", "Exact in virtual time.")

prop("C27", "Pipeline statistics add up",
     "Once everything is processed, Stats reports as Completed the number of requests that were processed, as Running 0, and as minimum, maximum and average times those of these requests. While running, Completed never goes down and Running is between 0 and the number of stages that can run.",
     ["schedules", "histories"], "every mix of requests and every time at which Stats is read",
     "The tests do not look at Stats.",
     [ST, SP], [("stats counters", ST)],
     MODEL + "the times recorded by the requests themselves in virtual time", "Times are exact in virtual time.")

prop("C28", "Request groups are independent of each other",
     "A RequestGroup whose consumer keeps reading gets all its requests and its Out is closed, whatever other groups do: being created, used or closed at the same time, or before. Closing one group does not disturb another.",
     ["schedules", "histories"], "every interleaving of creating, using and closing groups",
     "The tests create all groups one after the other.",
     [SP], [("demultiplexer registrations", SP)],
     MODEL + "delivery counts of every group, and deadlock detection", "Groups are created and closed concurrently on purpose.")

prop("C29", "DelayWarning warns exactly when output is held up",
     "With DelayWarning, a warning is logged when a consumer does not take the output for longer than the time given. No warning is logged while consumers take the output at once, nor without the option, and no request is lost by it.",
     ["configurations", "schedules"], "every delay and every pattern of slow consumers",
     "The tests do not use the option.",
     [SP], [("delay warning", SP)],
     MODEL + "the log output in virtual time", "Only one pipeline with simple consumers is judged for the presence of the warning.")

prop("C30", "OTEL spans are all ended, once, and change nothing",
     "If a request's, group's or wait.Group's context carries a recording OTEL span, every span that is started for it is ended exactly once by the time everything was processed and closed, and each stage and each function runs under a span of its own operation; the caller's own span is never ended, and a request comes out with it. The span of a request that failed has the status Error, that of others not, and every group has a span of its own. Results, routes and errors are the same with and without tracing.",
     ["configurations", "inputs", "schedules"], "every case of the pipeline, group, slice, channel and pool generators, with tracing on",
     "The tests run without a tracer.",
     [SP, WA, SL, CH], [("otelStart and otelEnd", SP), ("span handling in Group", WA)],
     MODEL + "a recording tracer that counts starts and ends", "The tracer is the harness's own; what else is on the spans is judged by C36, C37 and C38.")

prop("C31", "The internal queue is a bounded FIFO queue, also under concurrency",
     "Every value pushed is popped exactly once, in an order that a first-in first-out queue of the given size allows, by any number of concurrent producers and consumers. Pop reports the end only after Close and when nothing is left; waiting pushes and pops proceed as soon as there is room or a value.",
     ["histories", "schedules"], "every history of concurrent Push, Pop and Close calls",
     "There is no test of the package.",
     [QU], [("Queue", QU)],
     MODEL + "FIFO order rules on the history and a linearizability checker", "Small histories are checked completely, large ones by order rules.")

prop("C33", "New validates its arguments, and pipelines it makes work",
     "New returns an error, and leaves no goroutine behind, if the number of pipelines is below 1, the state machine is missing, or an option fails. For all other arguments it returns pipelines that process requests with every option given in effect.",
     ["inputs", "configurations"], "every number of pipelines, list of options and state machine, valid or not",
     "The tests call New with valid arguments only.",
     [SP], [("New and its options", SP)],
     MODEL + "a model of validity, leak detection and a run of requests", "Covers repeated options and empty lists of preprocessors.")

prop("C32", "stagedpipe-cli writes packages and programs that compile and run",
     "For every package path whose last element can be the name of a package, 'init -p PATH' writes a package that compiles, and with -m also a main program that runs its pipeline, prints the ten items and ends with success. It fails and changes nothing if the name is taken, and it never touches files other than the ones it is to write.",
     ["inputs", "configurations"], "every package path, way of giving the options, and content of the directory",
     "There is no test of the command.",
     [CLI + "init.go", CLI + "main.tmpl", CLI + "data.tmpl", CLI + "pipeline.tmpl"], [("init command", CLI + "init.go"), ("templates", CLI + "*.tmpl")],
     "property-based testing: generated package paths and options for the real command; what it writes is compiled and run, and the directory compared before and after",
     "The Go toolchain is the oracle. Three classes of names that cannot work today are known findings.")

prop("C34", "The registry lists exactly the named pools that are open",
     "A listing of the pool registry contains every named pool that was open during the whole listing, once, and no pool that was closed before it or made after it. It always ends, and a listing that is not read to its end neither blocks making, using and closing pools nor leaves a goroutine behind.",
     ["histories", "schedules"], "every history of concurrent New, Close and listings",
     "There is no test of the package.",
     [RE, GP, GL], [("Pools, Register and Unregister", RE)],
     MODEL + "the intervals in which each pool was open", "Every list is judged against the calls before, during and after it.")

prop("C35", "Functions that the pool refuses are reported, not run, and hang nothing",
     "If the options of a call are for the other kind of pool, so that the pool refuses every function, then wait.Group.Wait, slices.Access, chans.Access and chans.Modify run none of the functions, return, and report an error if there was something to do, whatever options come before and after the wrong one. Nothing hangs: Running of the group is 0 afterwards, the output of chans.Modify is closed, and group and pool can be used again.",
     ["configurations", "inputs", "schedules"], "every kind and size of pool, list of options, amount of data and context state",
     "The tests pass only options that fit the pool.",
     [WA, SL, CH, GP, GL], [("Go and Wait of the group", WA), ("Access", SL), ("Access and Modify", CH), ("option checks in Submit", GP + " and " + GL)],
     MODEL + "run counters, error presence, deadlock detection of the synctest bubble and a second use of group and pool", "Deadlock detection is exact in virtual time.")

prop("C36", "Submit writes what happened to a job on the caller's span",
     "If the context of a Submit carries a recording OTEL span, that span gets one event for each job the pool accepts, once it is accepted, with the name and package of the pool, whether it is NonBlocking, how long Submit took, and the caller: the name given with Caller, or else the function that called Submit. A Submit that has to wait for a pool that is full adds one event that says so when the wait begins; one with the NonBlocking option, or to an idle pool, does not. A Submit that fails records its error, once, and no job. Nothing is put on other spans, and the job runs with the span.",
     ["inputs", "configurations", "schedules"], "every kind and state of the pool, list of options, and way of calling Submit",
     "The tests run without a tracer.",
     [GP, GL], [("submitEvent, blockEvent and callerName", GP), ("submitEvent, blockEvent and callerName", GL)],
     MODEL + "a recording tracer whose events are compared with each call's arguments, result and time in virtual time", "Whether a Submit waited is known where the pool is idle or filled by the case; in the rest at most one such event is demanded.", observe=["OTEL span of the context passed to Submit"])

prop("C37", "wait.Group, slices and chans write errors and progress on OTEL spans",
     "For each round of a wait.Group whose first Go has a context with a recording OTEL span, one span under it, named after the group, has an event for the beginning, one for each call of Go, one for the call of Wait, with the number of functions of the round, whether CancelOnErr is set and whether a pool is used, and at least one for the end with the time Wait took; the error that Wait returns is recorded on it, once, and nothing else, and it has ended when Wait returns. An error that slices.Access, chans.Access or chans.Modify return because of their functions, the context or a nil channel is recorded once on the caller's span, and none if they return nil. Without a recording span, none is started.",
     ["inputs", "histories", "schedules"], "every sequence of rounds and calls, traced or not, with failures, cancellations and pools",
     "The tests run without a tracer.",
     [WA, SL, CH], [("waitOTELStart, waitOTELEnd and the span of Go", WA), ("spanner.Error in Access", SL), ("spanner.Error in Access and Modify", CH)],
     MODEL + "a recording tracer whose events, times and errors are compared with the calls in virtual time", "Times on events are exact where the case has no delays by the schedule.", observe=["OTEL spans under that of the context passed to Go, Access and Modify"])

prop("C38", "The spans of a request tell its data, stages, events and error",
     "For a request whose context carries a recording OTEL span, its own span, named after the group (or 'unnamed'), has one event for the start of processing with the data as submitted (as JSON) and the time it was queued, one for the end with the data as it comes out and the time it took, and status Error with the text of the error exactly if it failed. Each stage that it goes through has a span named after the stage under that, in order, with an event for start and end; an event recorded with Request.Event in a stage or preprocessor is on that stage's span with exactly the key values given, and Event returns an error and records nothing for a missing name, odd number of values, a key that is no string or a type that is not supported, and does nothing without a recording span. The span of a group, under that of its first request, has an event for its start and one for its end with the time it took.",
     ["inputs", "configurations", "schedules"], "every route, set of data and events, with and without tracing, Ordered and DAG",
     "The tests run without a tracer.",
     [SP], [("otelStart, otelEnd and Event of Request", SP), ("execStage", SP), ("otelStart and otelEnd of RequestGroup", SP)],
     MODEL + "a recording tracer whose tree of spans, events, attributes and times is compared with what each stage of the request saw and did", "Data that JSON cannot represent must still give the events.", observe=["OTEL spans under that of the context of a Request"])

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")

json.dump({
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": [{"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
                "level_note": p["note"] + " Nothing beyond the generated cases and schedules is covered."} for p in P],
    "not_applicable": [],
    "notes": "No hooks in /repo: schedule points are inserted into a scratch copy of the sources (go build overlay) on every run. Genuine defects that were repaired are the fix: commits of /repo, listed in known-findings.txt.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
