---------------------------- MODULE GitWhoTrace ---------------------------
(* Checks a recorded trace of the real git-who against GitWho.  Every line   *)
(* of the trace is one event; a run event carries the query and the observed *)
(* outcome.  The verdicts (which clauses which run breaks) are collected and *)
(* written out when the whole trace has been consumed.                       *)
EXTENDS Disk, Terminal, Args, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
T == TLCEval(Trace[1])

VARIABLES l,        \* next line
          verdicts, \* <<[id, bad]>>
          digest,   \* run id -> digest of its output
          kept,     \* run id -> its report, for relations between reports
          known,    \* verdicts on reports since the last change of the world
          cur,      \* the repository we are in
          saved,    \* the worlds of the other repositories
          stores    \* repository -> its directory in the cache
vars == <<world, l, verdicts, digest, kept, known, cur, saved, stores>>

None == [x \in {} |-> ""]
TraceInit == /\ Init /\ l = 2 /\ verdicts = <<>> /\ digest = None /\ kept = None
             /\ known = None /\ cur = "repo" /\ saved = None /\ stores = None

\* A run given by its command line: what it asks for is for Args to say
Effective(r) ==
    IF "args" \notin DOMAIN r THEN r
    ELSE LET p == Parse(r.args, r.names, SeqSet(r.files), r.dates)
             q == IF p.kind = "report" THEN p.q ELSE [Blank EXCEPT !.badflag = TRUE]
         IN [ev |-> "run", id |-> r.id, par |-> r.par, fate |-> r.fate, now0 |-> r.now0, now1 |-> r.now1,
             out |-> r.out, kind |-> p.kind, what |-> p.q.cmd,
             q |-> [q EXCEPT !.tz = r.q.tz, !.cwd = r.q.cwd, !.cache = r.q.cache, !.norepo = r.q.norepo]]

e == Trace[l]
\* An empty object reads as a sequence; sets travel as sequences
Same == UNCHANGED <<cur, saved, stores>>
Pass == UNCHANGED <<verdicts, digest, kept>> /\ known' = None /\ Same
Add(vs, id, bad) == IF bad = {} THEN vs ELSE Append(vs, [id |-> id, bad |-> SetToSeq(bad)])

IsCommits == e.ev = "commits" /\ Commit(e.new, e.head) /\ Pass
IsIndex == e.ev = "index" /\ Index(SeqSet(e.add), SeqSet(e.del)) /\ Pass
IsMailmap == e.ev = "mailmap" /\ Mailmap(e.repo, e.conf, e.on) /\ Pass
IsIgnore == e.ev = "ignore" /\ Ignore(SeqSet(e.ids)) /\ Pass
\* Of this repository, or all there are
IsCacheLost == /\ e.ev = "cachelost" /\ CacheLost
               /\ IF "everywhere" \in DOMAIN e
                  THEN /\ saved' = [x \in DOMAIN saved |-> [saved[x] EXCEPT !.cached = {}]]
                       /\ UNCHANGED <<verdicts, cur, stores, digest, kept>> /\ known' = None
                  ELSE Pass
\* Another history in the same place, or the first one of a scenario
IsReset == /\ e.ev = "reset"
           /\ UNCHANGED <<verdicts, digest, kept>> /\ known' = None
           /\ IF "forget" \in DOMAIN e
              THEN UNCHANGED <<cur, saved, stores>>
              ELSE cur' = "repo" /\ saved' = None /\ stores' = None
           /\ hist' = EmptyHistory /\ head' = 0 /\ tracked' = {}
           /\ mmRepo' = <<>> /\ mmConf' = <<>> /\ mmOn' = FALSE
           /\ ignore' = {} /\ cached' = {} /\ maybe' = {}

\* To another repository: one seen before, a new one, or (clone) a copy of
\* the current one, or another working tree of it, or a shallow copy
Here == [hist |-> hist, head |-> head, tracked |-> tracked, mmRepo |-> mmRepo,
         mmConf |-> mmConf, mmOn |-> mmOn, ignore |-> ignore, cached |-> cached, maybe |-> maybe]
IsSwitch ==
    /\ e.ev = "switch"
    /\ UNCHANGED <<verdicts, digest, kept, stores>> /\ known' = None
    /\ cur' = e.to
    /\ saved' = With(saved, cur, Here)
    /\ IF e.clone
       THEN /\ cached' = {} /\ maybe' = {}
            /\ mmConf' = <<>> /\ mmRepo' = <<>> /\ mmOn' = FALSE /\ ignore' = {}
            /\ hist' = (IF "cut" \in DOMAIN e THEN CutOff(hist, SeqSet(e.cut)) ELSE hist)
            /\ head' = (IF "head" \in DOMAIN e THEN e.head ELSE head)
            /\ tracked' = (IF head' = 0 THEN {} ELSE DOMAIN hist.trees[head'])
       ELSE LET w == IF e.to \in DOMAIN saved THEN saved[e.to]
                     ELSE [hist |-> EmptyHistory, head |-> 0, tracked |-> {}, mmRepo |-> <<>>,
                           mmConf |-> <<>>, mmOn |-> FALSE, ignore |-> {}, cached |-> {}, maybe |-> {}]
            IN /\ hist' = w.hist /\ head' = w.head /\ tracked' = w.tracked
               /\ mmRepo' = w.mmRepo /\ mmConf' = w.mmConf /\ mmOn' = w.mmOn
               /\ ignore' = w.ignore /\ cached' = w.cached /\ maybe' = w.maybe

\* A shallow clone is deepened, a commit replaced, attributes are set
IsRetold ==
    /\ e.ev \in {"deepen", "substitute", "attributes", "settings", "mute"}
    /\ Pass
    /\ CASE e.ev = "deepen" -> Retold(CutOff([saved[e.from].hist EXCEPT !.dull = hist.dull, !.renames = hist.renames,
                                                               !.mute = hist.mute],
                                             SeqSet(e.cut)))
         [] e.ev = "substitute" -> Retold(Substituted(hist, e.c, e.rootless))
         [] e.ev = "attributes" -> Retold([hist EXCEPT !.dull = SeqSet(e.dull)])
         [] e.ev = "mute" -> Retold([hist EXCEPT !.mute = SeqSet(e.paths)])
         [] e.ev = "settings" -> Retold([hist EXCEPT !.renames = e.renames])

FetchFaults(r) ==
    IF "fetched" \notin DOMAIN r.out \/ r.out.rc # 0 \/ r.fate # "ok" \/ Rejected(r.q) THEN {}
    ELSE LET f == r.out.fetched
             F == SeqSet(f)
             W == Needs(r.q, T, r.now0)
         IN (IF UsesCache(r.q, r.par) /\ F \cap cached # {} THEN {"refetched"} ELSE {})
            \cup (IF Cardinality(F) # Len(f) THEN {"fetched-twice"} ELSE {})
            \cup (IF UsesCache(r.q, r.par) /\ ~(W \subseteq (F \cup maybe)) THEN {"not-fetched"} ELSE {})
            \cup (IF ~(F \subseteq W) THEN {"fetched-unneeded"} ELSE {})

DiskOf(r) ==
    IF "disk" \notin DOMAIN r.out THEN {}
    ELSE DiskFaults(r.q, r.par, r.fate, r.out.rc, r.out.disk, cur, stores,
                    IF Rejected(r.q) THEN {} ELSE Needs(r.q, T, r.now0))

\* Progress was shown (F: what git was asked for)
TerminalOf(r) ==
    IF "progress" \notin DOMAIN r.out \/ r.out.rc # 0 \/ "fetched" \notin DOMAIN r.out THEN {}
    ELSE ProgressFaults(r.out.progress, Len(r.out.fetched))

\* The same report in the same world gets the same verdict
Key(r) == <<r.q, r.fate, r.out.digest>>
\* Not every command line asks for a report
HelpFaults(r) ==
    IF r.out.hang THEN {"hang"}
    ELSE (IF r.out.crash THEN {"panic"} ELSE {})
         \cup IF r.kind = "any" THEN {}
              ELSE IF r.out.rc # 0 THEN {"failed"}
              ELSE IF r.kind = "version"
              THEN IF r.out.usage = "" /\ Len(r.out.lines) = 1 THEN {} ELSE {"no-version"}
              ELSE IF StartsWith(r.out.usage, "Usage: git-who " \o r.what) /\ (r.what = "" => HasSub(r.out.usage, "subcommand"))
              THEN {} ELSE {"no-help"}

Verdict(r) ==
    IF "kind" \in DOMAIN r /\ r.kind \in {"help", "version", "any"} THEN HelpFaults(r)
    ELSE IF ~r.out.hang /\ Key(r) \in DOMAIN known THEN known[Key(r)]
    ELSE Faults(r.q, T, r.fate, r.now0, r.now1, r.out)

IsRun ==
    /\ e.ev = "run"
    /\ LET r == TLCEval(Effective(e))
           v == TLCEval(Verdict(r))
           bad == v \cup FetchFaults(r) \cup DiskOf(r) \cup TerminalOf(r)
       IN /\ verdicts' = Add(verdicts, e.id, bad)
          /\ known' = IF "kind" \in DOMAIN r THEN known ELSE With(known, Key(r), v)
          /\ Run(r.q, T, r.par, r.fate, r.out.rc, r.now0)
    /\ digest' = With(digest, e.id, e.out.digest)
    /\ kept' = IF "keep" \in DOMAIN e /\ e.out.rc = 0 THEN With(kept, e.id, [q |-> e.q, out |-> e.out])
               ELSE kept
    /\ stores' = (IF "disk" \in DOMAIN e.out THEN StoresAfter(stores, e.out.disk, cur) ELSE stores)
    /\ UNCHANGED <<cur, saved>>

\* Runs that must have printed the very same bytes
IsSame ==
    /\ e.ev = "same"
    /\ LET D == {digest[e.ids[k]] : k \in DOMAIN e.ids}
       IN verdicts' = Add(verdicts, e.ids[1], IF Cardinality(D) <= 1 THEN {} ELSE {e.clause})
    /\ UNCHANGED <<world, digest, kept, known>> /\ Same

\* A report, where only part of it could be written
IsStrained ==
    /\ e.ev = "strained"
    /\ verdicts' = Add(verdicts, e.id, StrainFaults(e.full, e.got, e.free, e.rc, e.said, e.hang)
                                      \cup IF e.crash THEN {"panic"} ELSE {})
    /\ UNCHANGED <<world, digest, kept, known>> /\ Same

\* Reports that must fit together
IsFit ==
    /\ e.ev = "fit"
    /\ LET ids == {e.whole} \cup SeqSet(e.parts)
           o(i) == kept[i].out
           bad == IF ~(ids \subseteq DOMAIN kept) THEN {}
                  ELSE CASE e.how = "sum" ->
                              SumFaults(o(e.whole), [k \in DOMAIN e.parts |-> o(e.parts[k])], e.cols)
                         [] e.how = "hist" ->
                              HistSumFaults(o(e.whole), o(e.parts[1]), kept[e.whole].q.mode)
                         [] e.how = "root" ->
                              RootFaults(o(e.whole), o(e.parts[1]), kept[e.whole].q)
       IN verdicts' = Add(verdicts, e.whole, bad)
    /\ UNCHANGED <<world, digest, kept, known>> /\ Same

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \/ IsCommits \/ IsIndex \/ IsMailmap \/ IsIgnore \/ IsCacheLost \/ IsReset
       \/ IsSwitch \/ IsRetold \/ IsRun \/ IsStrained \/ IsSame \/ IsFit

TraceSpec == TraceInit /\ [][TraceNext]_vars

\* Reached the end: report
Report ==
    l = Len(Trace) + 1 =>
        ndJsonSerialize(IOEnv.VERDICT, <<[lines |-> Len(Trace), verdicts |-> verdicts]>>)
=============================================================================
