------------------------------- MODULE Select -----------------------------
(* Which commits and which of their file changes a command is about.         *)
(* q is the query of a run: [revs, paths, cwd, since, until, au, nau, ...].  *)
EXTENDS History, Identity, Pathspec

\* Revision arguments: k in {"ref","neg","range","sym"}, a, b are commit ids
\* (already resolved names).  No argument means HEAD.
Starts(h, head, revs) ==
    IF Len(revs) = 0 THEN {head}
    ELSE UNION {CASE revs[i].k = "ref" -> {revs[i].a}
                  [] revs[i].k = "neg" -> {}
                  [] revs[i].k = "range" -> {revs[i].b}
                  [] revs[i].k = "sym" -> {revs[i].a, revs[i].b} : i \in DOMAIN revs}

\* A...B leaves out the best common ancestors.
Stops(h, revs) ==
    UNION {CASE revs[i].k = "ref" -> {}
             [] revs[i].k = "neg" -> {revs[i].a}
             [] revs[i].k = "range" -> {revs[i].a}
             [] revs[i].k = "sym" -> Best(h, Reach(h, {revs[i].a}) \cap Reach(h, {revs[i].b}))
             : i \in DOMAIN revs}

\* Only negative revisions: git walks nothing, unless no revision was given.
SameOn(h, match(_), i, p) ==
    LET a == h.trees[i]
        b == IF p = 0 THEN EmptyTree ELSE h.trees[p]
    IN \A f \in (DOMAIN a) \cup (DOMAIN b) :
          match(f) => /\ f \in DOMAIN a /\ f \in DOMAIN b
                      /\ a[f].v = b[f].v

\* Identity of the author of commit i
Who(h, mm, fold, i) == MapUser(mm, fold, h.cs[i].an, h.cs[i].ae)

Filtered(h, q, who(_), S) ==
    {i \in S :
        LET line == AuthorLine(who(i)) IN
        /\ (q.since = -1 \/ h.cs[i].ct >= q.since)
        /\ (q.until = -1 \/ h.cs[i].ct <= q.until)
        /\ (Len(q.au) = 0 \/ \E k \in DOMAIN q.au : PatMatch(q.au[k], line))
        /\ ~ \E k \in DOMAIN q.nau : PatMatch(q.nau[k], line)}

Selected(h, head, q, who(_)) ==
    LET match(f) == PathMatch(q.cwd, q.paths, f)
        limited == Len(q.paths) > 0
        same(i, p) == SameOn(h, match, i, p)
        W == Walk(h, Starts(h, head, q.revs), Stops(h, q.revs), limited, same)
    IN Filtered(h, q, who, W)

\* The file changes of commit i the query is about
Changes(h, q, i) ==
    LET D == Counted(h, i)
    IN
    IF Len(q.paths) = 0 THEN D
    ELSE SelectSeq(D, LAMBDA d : PathMatch(q.cwd, q.paths, d.p))
=============================================================================
