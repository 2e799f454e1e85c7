------------------------------- MODULE GitWho -----------------------------
(* The system: a repository that changes, and runs of git-who on it.         *)
(* State: the history, where HEAD points, the index, the two mailmaps, the   *)
(* list of ignored revisions - and what the cache may hold.                  *)
(* A run does not change any of these except the cache; what it may print is *)
(* decided by Faults(...) = {} for its observed outcome.                     *)
EXTENDS TableView, HistView, TreeView

VARIABLES hist,     \* History record
          head,     \* commit id HEAD points to (0: no commit yet)
          tracked,  \* paths in the index
          mmRepo,   \* entries of the repository's .mailmap
          mmConf,   \* entries of the file named by mailmap.file
          mmOn,     \* whether any of the two files exists
          ignore,   \* commit ids listed in .git-blame-ignore-revs
          cached,   \* commit ids whose diffs the cache holds for these mailmaps
          maybe     \* commit ids whose diffs it may hold
world == <<hist, head, tracked, mmRepo, mmConf, mmOn, ignore, cached, maybe>>

Init == /\ hist = EmptyHistory /\ head = 0 /\ tracked = {}
        /\ mmRepo = <<>> /\ mmConf = <<>> /\ mmOn = FALSE
        /\ ignore = {} /\ cached = {} /\ maybe = {}

\* ---- changes to the repository ----
Commit(new, to) ==
    LET h2 == AddCommits(hist, new)
    IN /\ hist' = h2
       /\ head' = to
       /\ tracked' = IF to = 0 THEN {} ELSE DOMAIN h2.trees[to]
       /\ UNCHANGED <<mmRepo, mmConf, mmOn, ignore, cached, maybe>>

Index(add, del) ==
    /\ tracked' = (tracked \cup add) \ del
    /\ UNCHANGED <<hist, head, mmRepo, mmConf, mmOn, ignore, cached, maybe>>

\* r, c: new contents, on: whether one of the files exists.  What the cache
\* holds belongs to what the files contained.
Mailmap(r, c, on) ==
    /\ mmRepo' = r /\ mmConf' = c /\ mmOn' = on
    /\ cached' = {}
    /\ UNCHANGED <<hist, head, tracked, ignore, maybe>>

Ignore(ids) ==
    /\ ignore' = ids
    /\ UNCHANGED <<hist, head, tracked, mmRepo, mmConf, mmOn, cached, maybe>>

\* Cache directory removed, damaged, or replaced: it holds nothing useful
CacheLost ==
    /\ cached' = {}
    /\ UNCHANGED <<hist, head, tracked, mmRepo, mmConf, mmOn, ignore, maybe>>

\* ---- the same commits, but git says something else about them ----
\* What the cache holds belongs to what git said before.
Retold(h) ==
    /\ hist' = h
    /\ cached' = {}
    /\ UNCHANGED <<head, tracked, mmRepo, mmConf, mmOn, ignore, maybe>>

\* ---- runs ----
\* Arguments git-who must turn down
Rejected(q) ==
    \/ q.n < 0
    \/ q.sorts > 1
    \/ q.badflag
    \/ \E i \in DOMAIN q.revs : q.revs[i].k = "unknown"
    \/ \E i \in DOMAIN q.paths : q.paths[i].m \in {"magic", "missing", "outside"}
    \/ q.norepo
    \/ head = 0 /\ q.revs = <<>>

Ctx(q, fold, rank, now) ==
    Context(hist, head, mmRepo \o mmConf, fold, rank, ignore, q, now)

\* How a run may end.  fate: what happened to it from outside
\*   ok      nothing
\*   gitfail a git process it needed failed, was killed or broke off
\*   fsfail  the file system refused some operation, or another run got in
\*           the way in the cache: it may fail, but not mislead
\*   killed  it was killed
Failed(out) ==
    (IF out.rc = 0 THEN {"accepted"} ELSE {})
    \cup (IF out.outlen > 0 THEN {"report-despite-failure"} ELSE {})
    \cup (IF out.errlen = 0 THEN {"no-explanation"} ELSE {})
    \cup (IF out.crash THEN {"panic"} ELSE {})
    \cup (IF out.hang THEN {"hang"} ELSE {})

\* What a report must say.  q: the query, T: tables [fold, rank, cw, zones],
\* now0..now1: when it ran, out: what it printed
ReportFaults(q, T, now0, now1, out) ==
    LET c == TLCEval(Ctx(q, T.fold, T.rank, now0))
        z == T.zones[q.tz]
        at(now) ==
            CASE q.cmd = "table" /\ q.csv -> CsvFaults(c, q, z, out)
              [] q.cmd = "table" /\ ~q.csv ->
                   HumanFaults(Authors(c, c.cnt, AnyChange), q, T.cw, now, out.lines, out.widths)
              [] q.cmd = "hist" -> HistFaults(c, q, z, T.cw, now, out.lines)
              [] q.cmd = "tree" -> TreeFaults(c, q, T.cw, now, tracked, out.lines)
        \* time passes while it runs
        F == TLCEval({at(now) : now \in {now0, now1}})
    IN IF {} \in F THEN {}
       ELSE IF now1 - now0 > 1 /\ \E now \in now0..now1 : at(now) = {} THEN {}
       ELSE CHOOSE f \in F : TRUE

Faults(q, T, fate, now0, now1, out) ==
    IF fate = "killed" THEN {}
    ELSE IF out.hang THEN {"hang"}
    ELSE IF Rejected(q) \/ fate = "gitfail" THEN Failed(out)
    ELSE IF out.rc # 0
    THEN IF fate = "fsfail" THEN Failed(out)
         ELSE {"failed"} \cup (IF out.crash THEN {"panic"} ELSE {})
    ELSE ReportFaults(q, T, now0, now1, out)

\* Commits whose diffs a run needs
Needs(q, T, now) ==
    LET c == Ctx(q, T.fold, T.rank, now)
        W == Selected(hist, head, q, LAMBDA i : c.who[i])
    IN W \ ignore
UsesCache(q, par) ==
    /\ ~Rejected(q) /\ par > 1 /\ q.cache
    /\ (q.cmd = "tree" \/ IsDiffMode(q.mode))

\* After a successful run the cache holds everything the run needed (commits
\* without author or from the future are never kept)
Run(q, T, par, fate, rc, now) ==
    /\ cached' = IF fate # "ok" THEN (IF UsesCache(q, par) THEN {} ELSE cached)
                 ELSE IF UsesCache(q, par) /\ rc = 0
                 THEN cached \cup Ctx(q, T.fold, T.rank, now).sel ELSE cached
    /\ maybe' = IF UsesCache(q, par) THEN maybe \cup Needs(q, T, now) ELSE maybe
    /\ UNCHANGED <<hist, head, tracked, mmRepo, mmConf, mmOn, ignore>>
=============================================================================
