------------------------------ MODULE Pipeline ----------------------------
(* How a report over many commits is put together in parallel: a writer cuts *)
(* the commits into batches, a spawner starts at most P workers and hands    *)
(* them the batches, every worker has git describe its batch and tallies it, *)
(* a cacher stores what was read, a waiter collects the workers' errors, and *)
(* the main goroutine combines the tallies.                                  *)
(* Channels without buffer are one action of sender and receiver together.   *)
(* A batch may fail (git log fails at any point), storing may fail, and the  *)
(* steps interleave in any way.                                              *)
(* Bug names a way to get it wrong; with "none" the model is the design.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* batches
          P,        \* processors
          Faults,   \* how many batches may fail
          CacheMayFail,
          Bug,
          Emit      \* print the schedule of every finished behaviour

Batches == 1..N
W == 1..P

VARIABLES next, qClosed,            \* writer
          spawner, spawned, held,   \* "recv" "spawn" "queue" "give" "done"
          wq, wqClosed,             \* workers on their way to the waiter
          worker, batch, werr,      \* "none" "recv" "git" "store" "give" "done"; werr: "" "err" "closed"
          waiter, watched,          \* "recv" "watch" "send" "done"
          errs, errsClosed, resultsClosed, storeClosed,
          cacher, storing, cacheErr, cacheErrClosed, stored,
          main,                     \* "loop" "drain" "final" "ok" "err"
          combined,                 \* how often each batch was combined
          ended,                    \* sequence of <<batch, fate>> as git processes ended
          started                   \* sequence of batches as git processes started
writerV == <<next, qClosed>>
spawnV == <<spawner, spawned, held>>
waitV == <<waiter, watched>>
errV == <<errs, errsClosed, resultsClosed, storeClosed>>
cacheV == <<cacher, storing, cacheErr, cacheErrClosed, stored>>
mainV == <<main, combined>>
logV == <<ended, started>>
vars == <<writerV, spawnV, wq, wqClosed, worker, batch, werr, waitV, errV, cacheV, mainV, logV>>

Init ==
    /\ next = 1 /\ qClosed = FALSE
    /\ spawner = "recv" /\ spawned = 0 /\ held = 0
    /\ wq = <<>> /\ wqClosed = FALSE
    /\ worker = [w \in W |-> "none"] /\ batch = [w \in W |-> 0] /\ werr = [w \in W |-> ""]
    /\ waiter = "recv" /\ watched = 0
    /\ errs = <<>> /\ errsClosed = FALSE /\ resultsClosed = FALSE /\ storeClosed = FALSE
    /\ cacher = "recv" /\ storing = 0 /\ cacheErr = <<>> /\ cacheErrClosed = FALSE /\ stored = {}
    /\ main = "loop" /\ combined = [b \in Batches |-> 0]
    /\ ended = <<>> /\ started = <<>>

Over == main \in {"ok", "err"}
Failures == {k \in DOMAIN ended : ended[k][2] = "fail"}

\* ---- writer and spawner ----
Take ==     \* the spawner receives the next batch
    /\ ~Over /\ spawner = "recv" /\ next <= N
    /\ held' = next /\ next' = next + 1
    /\ spawner' = IF spawned < (IF Bug = "one worker too few" THEN P - 1 ELSE P) THEN "spawn" ELSE "give"
    /\ UNCHANGED <<qClosed, spawned, wq, wqClosed, worker, batch, werr, waitV, errV, cacheV, mainV, logV>>
CloseQ ==
    /\ ~Over /\ next > N /\ ~qClosed /\ qClosed' = TRUE
    /\ UNCHANGED <<next, spawnV, wq, wqClosed, worker, batch, werr, waitV, errV, cacheV, mainV, logV>>
Spawn ==
    /\ ~Over /\ spawner = "spawn"
    /\ spawned' = spawned + 1
    /\ worker' = [worker EXCEPT ![spawned + 1] = "recv"]
    /\ spawner' = "queue"
    /\ UNCHANGED <<writerV, held, wq, wqClosed, batch, werr, waitV, errV, cacheV, mainV, logV>>
Queue ==    \* buffered with room for every worker
    /\ ~Over /\ spawner = "queue" /\ Len(wq) < P
    /\ wq' = Append(wq, spawned) /\ spawner' = "give"
    /\ UNCHANGED <<writerV, spawned, held, wqClosed, worker, batch, werr, waitV, errV, cacheV, mainV, logV>>
Give(w) ==  \* a worker receives a batch and starts git
    /\ ~Over /\ spawner = "give" /\ worker[w] = "recv"
    /\ batch' = [batch EXCEPT ![w] = held]
    /\ worker' = [worker EXCEPT ![w] = "git"]
    /\ started' = Append(started, held)
    /\ spawner' = "recv" /\ held' = 0
    /\ UNCHANGED <<writerV, spawned, wq, wqClosed, werr, waitV, errV, cacheV, mainV, ended>>
SpawnerDone ==
    /\ ~Over /\ spawner = "recv" /\ qClosed /\ spawner' = "done" /\ wqClosed' = TRUE
    /\ UNCHANGED <<writerV, spawned, held, wq, worker, batch, werr, waitV, errV, cacheV, mainV, logV>>

\* ---- workers ----
GitEnds(w, fate) ==
    /\ ~Over /\ worker[w] = "git"
    /\ fate = "fail" => Cardinality(Failures) < Faults
    /\ ended' = Append(ended, <<batch[w], fate>>)
    /\ worker' = [worker EXCEPT ![w] =
            IF fate = "ok" \/ Bug = "exit status ignored" THEN "store"
            ELSE IF Bug = "failed batch skipped" THEN "recv" ELSE "fail"]
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, batch, werr, waitV, errV, cacheV, mainV, started>>
EarlyStore(w) ==    \* (wrong:) what was read is stored before git has ended
    /\ ~Over /\ Bug = "stored too early" /\ worker[w] = "git" /\ cacher = "recv"
    /\ batch[w] \notin stored
    /\ storing' = batch[w] /\ cacher' = "add"
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, waitV, errV, cacheErr,
                   cacheErrClosed, stored, mainV, logV>>
Store(w) ==
    /\ ~Over /\ worker[w] = "store" /\ cacher = "recv"
    /\ storing' = batch[w] /\ cacher' = "add"
    /\ worker' = [worker EXCEPT ![w] = "give"]
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, batch, werr, waitV, errV, cacheErr, cacheErrClosed,
                   stored, mainV, logV>>
Combine(w) ==   \* main receives the worker's tally
    /\ worker[w] = "give" /\ main = "loop" /\ ~resultsClosed
    /\ combined' = [combined EXCEPT ![batch[w]] = @ + 1]
    /\ worker' = [worker EXCEPT ![w] = "recv"] /\ batch' = [batch EXCEPT ![w] = 0]
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, werr, waitV, errV, cacheV, main, logV>>
WorkerFails(w) ==
    /\ ~Over /\ worker[w] = "fail"
    /\ worker' = [worker EXCEPT ![w] = "done"] /\ werr' = [werr EXCEPT ![w] = "err"]
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, batch, waitV, errV, cacheV, mainV, logV>>
WorkerDone(w) ==
    /\ ~Over /\ worker[w] = "recv" /\ spawner = "done"
    /\ worker' = [worker EXCEPT ![w] = "done"] /\ werr' = [werr EXCEPT ![w] = "closed"]
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, batch, waitV, errV, cacheV, mainV, logV>>

\* ---- waiter ----
Watch ==
    /\ ~Over /\ waiter = "recv" /\ wq # <<>>
    /\ watched' = Head(wq) /\ wq' = Tail(wq) /\ waiter' = "watch"
    /\ UNCHANGED <<writerV, spawnV, wqClosed, worker, batch, werr, errV, cacheV, mainV, logV>>
Watched ==
    /\ ~Over /\ waiter = "watch" /\ werr[watched] # ""
    /\ waiter' = IF werr[watched] = "err" THEN "send" ELSE "recv"
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, watched, errV, cacheV, mainV, logV>>
Forward ==
    /\ ~Over /\ waiter = "send" /\ Len(errs) < (IF Bug = "no room for an error" THEN 0 ELSE 1)
    /\ errs' = Append(errs, watched) /\ waiter' = "recv"
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, watched, errsClosed, resultsClosed,
                   storeClosed, cacheV, mainV, logV>>
Waited ==   \* all channels are closed, one after the other
    /\ ~Over /\ waiter = "recv" /\ (wqClosed \/ Bug = "waiter does not wait") /\ wq = <<>>
    /\ waiter' = "errs"
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, watched, errV, cacheV, mainV, logV>>
CloseErrs ==
    /\ ~Over /\ waiter = "errs" /\ errsClosed' = TRUE /\ waiter' = "results"
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, watched, errs, resultsClosed,
                   storeClosed, cacheV, mainV, logV>>
CloseResults ==
    /\ ~Over /\ waiter = "results" /\ resultsClosed' = TRUE /\ waiter' = "store"
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, watched, errs, errsClosed,
                   storeClosed, cacheV, mainV, logV>>
CloseStore ==
    /\ ~Over /\ waiter = "store" /\ storeClosed' = TRUE /\ waiter' = "done"
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, watched, errs, errsClosed,
                   resultsClosed, cacheV, mainV, logV>>

\* ---- cacher ----
Added ==
    /\ ~Over /\ cacher = "add"
    /\ stored' = stored \cup {storing} /\ storing' = 0 /\ cacher' = "recv"
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, waitV, errV, cacheErr,
                   cacheErrClosed, mainV, logV>>
AddFails ==
    /\ ~Over /\ cacher = "add" /\ CacheMayFail
    /\ storing' = 0 /\ cacher' = "close"
    /\ cacheErr' = IF Bug = "cache error lost" THEN <<>> ELSE <<storing>>
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, waitV, errV, cacheErrClosed,
                   stored, mainV, logV>>
CacherDone ==
    /\ ~Over
    /\ (cacher = "recv" /\ storeClosed) \/ cacher = "close"
    /\ cacher' = "done" /\ cacheErrClosed' = TRUE
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, waitV, errV, storing, cacheErr,
                   stored, mainV, logV>>

\* ---- main ----
SeesErr ==
    /\ main \in {"loop", "drain"} /\ errs # <<>>
    /\ main' = "err" /\ errs' = Tail(errs)
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, waitV, errsClosed, resultsClosed,
                   storeClosed, cacheV, combined, logV>>
SeesCacheErr ==
    /\ main \in {"loop", "final"} /\ cacheErr # <<>>
    /\ main' = "err" /\ cacheErr' = Tail(cacheErr)
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, waitV, errV, cacher, storing,
                   cacheErrClosed, stored, combined, logV>>
SeesEnd ==      \* results is closed: one last look at errs
    /\ main = "loop" /\ resultsClosed
    /\ main' = IF Bug = "last error missed" THEN "final" ELSE "drain"
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, waitV, errV, cacheV, combined, logV>>
NoErr ==
    /\ main = "drain" /\ errs = <<>> /\ errsClosed
    /\ main' = IF Bug = "cacher not waited for" THEN "ok" ELSE "final"
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, waitV, errV, cacheV, combined, logV>>
NoCacheErr ==
    /\ main = "final" /\ cacheErr = <<>> /\ cacheErrClosed
    /\ main' = "ok"
    /\ UNCHANGED <<writerV, spawnV, wq, wqClosed, worker, batch, werr, waitV, errV, cacheV, combined, logV>>

Next ==
    \/ Take \/ CloseQ \/ Spawn \/ Queue \/ SpawnerDone
    \/ \E w \in W : \/ Give(w) \/ EarlyStore(w) \/ Store(w) \/ Combine(w)
                    \/ WorkerFails(w) \/ WorkerDone(w)
                    \/ \E f \in {"ok", "fail"} : GitEnds(w, f)
    \/ Watch \/ Watched \/ Forward \/ Waited \/ CloseErrs \/ CloseResults \/ CloseStore
    \/ Added \/ AddFails \/ CacherDone
    \/ SeesErr \/ SeesCacheErr \/ SeesEnd \/ NoErr \/ NoCacheErr

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- what must hold ----
Ended(f) == {ended[k][1] : k \in {j \in DOMAIN ended : ended[j][2] = f}}
OnceAtMost == \A b \in Batches : combined[b] <= 1
\* A report is complete
OkIsAll == main = "ok" => /\ \A b \in Batches : combined[b] = 1
                          /\ Ended("ok") = Batches /\ Failures = {}
                          /\ stored = Batches
\* It gives up only if something went wrong
ErrHasCause == main = "err" => Failures # {} \/ CacheMayFail
\* What is stored was read to the end
StoredIsRead == stored \subseteq Ended("ok")
\* It comes to an end: every state in which nothing can happen is an end
NeverStuck == ~Over => ENABLED Next
Ends == <>Over

\* For replay: in which order git processes end (counted by their start) and how
Index(b) == CHOOSE k \in DOMAIN started : started[k] = b
Show == (Emit /\ Over) =>
    PrintT("@" \o ToJson([p |-> P, n |-> N,
                          fin |-> [k \in DOMAIN ended |-> [i |-> Index(ended[k][1]) - 1, f |-> ended[k][2]]]]))
=============================================================================
