---------------------------- MODULE SmallWorlds ---------------------------
(* Every repository of a few commits: two authors, two files, one or two     *)
(* days, every kind of change, branches and merges.  TLC                     *)
(*  - checks on every one of them what the reports of one selection must     *)
(*    have to do with each other (so that the specification itself says what *)
(*    the properties say), and                                               *)
(*  - prints it, so that it can be built for real and the program's reports  *)
(*    on it compared with the specification.                                 *)
EXTENDS Relations, Json

CONSTANTS MaxLinear,   \* commits before a merge
          Merges,      \* whether one merge may follow
          TwoDays,     \* whether commits may be on different days
          Emit         \* whether to print the worlds

h == hist
T0 == 1600000000
P1 == "a"
P2 == "b/c"
Authors2 == {1, 2}
Name(k) == IF k = 1 THEN "Ann" ELSE "Bob"
Mail(k) == IF k = 1 THEN "ann@x" ELSE "bob@y"

Tips(x) == {i \in 1..Len(x.cs) : ~ \E j \in 1..Len(x.cs) : i \in SeqSet(x.cs[j].par)}
IsOver(x) == Len(x.cs) > 0 /\ IsMerge(x.cs[Len(x.cs)])

\* Changes one commit may make to the tree t
Ops(t) ==
    LET has(p) == p \in DOMAIN t
        text(p) == has(p) /\ ~t[p].b
        w(p, a, r) == [op |-> "w", p |-> p, a |-> a, r |-> r]
    IN {<<>>}
       \cup {<<w(p, 9, 0)>> : p \in {x \in {P1, P2} : ~has(x)}}
       \cup {<<w(p, 2, 1)>> : p \in {x \in {P1, P2} : text(x)}}
       \cup {<<w(p, 0, 3)>> : p \in {x \in {P1, P2} : text(x) /\ t[x].n > 3}}
       \cup {<<[op |-> "b", p |-> P1]>>}
       \cup {<<[op |-> "x", p |-> p]>> : p \in {x \in {P1} : has(x)}}
       \cup {<<[op |-> "d", p |-> p]>> : p \in {x \in {P1, P2} : has(x)}}
       \cup {<<[op |-> "mv", p |-> p, q |-> q, a |-> 0, r |-> 0]>> :
             p \in {x \in {P1, P2} : text(x) /\ t[x].n >= 8},
             q \in {x \in {P1, P2} : ~has(x)}}
       \cup (IF ~has(P1) /\ ~has(P2) THEN {<<w(P1, 1, 0), w(P2, 2, 0)>>} ELSE {})

MergeOps(x, i, j) ==
    {<<>>} \cup {<<[op |-> "tk", p |-> p, k |-> j]>> :
                 p \in {y \in {P1, P2} :
                        LET a == x.trees[i] b == x.trees[j]
                        IN (y \in DOMAIN a) # (y \in DOMAIN b)
                           \/ (y \in DOMAIN a /\ a[y] # b[y])}}

Commit1(par, who, day, ops) ==
    LET id == Len(h.cs) + 1
        at == T0 + day * Day + id
    IN Commit(<<[id |-> id, par |-> par, an |-> Name(who), ae |-> Mail(who),
                 at |-> at, ct |-> at, ops |-> ops]>>, id)

Days == IF TwoDays THEN {0, 1} ELSE {0}
Plain ==
    /\ Len(h.cs) < MaxLinear
    /\ ~IsOver(h)
    /\ \E who \in (IF Len(h.cs) = 0 THEN {1} ELSE Authors2), d \in Days :
         IF Len(h.cs) = 0
         THEN \E o \in Ops(EmptyTree) : Commit1(<<>>, who, d, o)
         ELSE \E p \in 1..Len(h.cs) : \E o \in Ops(h.trees[p]) :
                /\ Cardinality(Tips(h) \ {p}) < 2
                /\ Commit1(<<p>>, who, d, o)
Join ==
    /\ Merges /\ ~IsOver(h) /\ Len(h.cs) > 1
    /\ \E i, j \in Tips(h) :
         /\ i # j
         /\ \E o \in MergeOps(h, i, j) : Commit1(<<i, j>>, 2, 0, o)

SmallNext == Plain \/ Join
SmallSpec == Init /\ [][SmallNext]_world

\* ---- what has to hold on each of them ----
Whole == Len(h.cs) > 0 /\ Cardinality(Tips(h)) = 1
Tip == CHOOSE i \in Tips(h) : TRUE
Zero0 == <<[at |-> 0, off |-> 0]>>
Modes == {"commits", "lines", "files", "last", "first"}
Q(cmd, mode) == [cmd |-> cmd, mode |-> mode, email |-> FALSE, merges |-> FALSE, csv |-> TRUE, n |-> 0,
                 d |-> 0, all |-> FALSE, revs |-> <<>>, paths |-> <<>>, cwd |-> "", since |-> -1,
                 until |-> -1, au |-> <<>>, nau |-> <<>>, sorts |-> 1, badflag |-> FALSE,
                 norepo |-> FALSE, tz |-> "UTC", cache |-> TRUE]
Rank0 == ("Ann" :> 1) @@ ("Bob" :> 2) @@ ("a" :> 3) @@ ("b" :> 4) @@ ("c" :> 5)
         @@ ("ann@x" :> 6) @@ ("bob@y" :> 7) @@ ("" :> 0)
Cx(q, ig) == Context(h, Tip, <<>>, [s \in {} |-> s], Rank0, ig, q, FarFuture)
Sum(R, f(_)) == FoldSet(LAMBDA r, acc : acc + f(r), 0, R)
Path1(p) == [s |-> p, x |-> FALSE, m |-> "ok", t |-> p]
Ref(i) == [k |-> "ref", a |-> i, b |-> 0, t |-> ""]
Between(i, j) == [k |-> "range", a |-> i, b |-> j, t |-> ""]
Rows(q) == LET c == Cx(q, {}) IN Authors(c, c.cnt, AnyChange)

\* C01: the rows account for every counted commit and every line, once
Accounts ==
    LET q == Q("table", "lines")
        c == Cx(q, {})
        R == Authors(c, c.cnt, AnyChange)
        D(i) == h.diffs[i]
    IN /\ c.sel = Reach(h, {Tip})
       /\ Sum(R, LAMBDA r : r.commits) = Cardinality({i \in c.sel : ~IsMerge(h.cs[i])})
       /\ Sum(R, LAMBDA r : r.added) = SumOver(c.sel, LAMBDA i : SumSeq([k \in DOMAIN D(i) |-> D(i)[k].a]))
       /\ \A i \in c.cnt : \E r \in R : r.key = h.cs[i].an /\ r.first <= h.cs[i].at /\ h.cs[i].at <= r.last
       /\ \A r \in R : r.commits > 0 /\ r.first <= r.last
       \* lines in the files at the tip come from somewhere
       /\ (\A i \in c.sel : Len(h.cs[i].par) <= 1 /\ \A k \in DOMAIN h.cs[i].ops : h.cs[i].ops[k].op # "b")
          => Sum(R, LAMBDA r : r.added - r.removed)
             = SumOver(DOMAIN h.trees[Tip], LAMBDA p : h.trees[Tip][p].n)

\* C02: ranking is a matter of the rows, and a cut is a first part of it
RankingIsOrder ==
    \A mode \in Modes :
        LET R == Rows(Q("table", mode))
            S == Ranked(mode, R)
        IN /\ SeqSet(S) = R
           /\ \A i, j \in DOMAIN S : i < j => ~Before(mode, S[j], S[i])
           /\ \A a, b \in R : ~(Before(mode, a, b) /\ Before(mode, b, a))
           /\ R = {} \/ Winners(mode, R) # {}

\* C03: --merges adds commits and dates, never lines or files
MergesAddCommitsOnly ==
    LET q == Q("table", "lines")
        c == Cx(q, {})
        m == Cx([q EXCEPT !.merges = TRUE], {})
        R == Authors(c, c.cnt, AnyChange)
        M == Authors(m, m.cnt, AnyChange)
    IN /\ \A r \in R : \E x \in M :
             /\ x.key = r.key /\ x.added = r.added /\ x.removed = r.removed /\ x.files = r.files
             /\ x.commits = r.commits + Cardinality({i \in m.cnt \ c.cnt : h.cs[i].an = r.key})
       /\ Sum(M, LAMBDA r : r.commits) = Cardinality(c.sel)

\* C12: ignoring is leaving out
IgnoringLeavesOut ==
    \A i \in 1..Len(h.cs) :
        LET q == Q("table", "files")
        IN Cx(q, {i}).cnt = Cx(q, {}).cnt \ {i}

\* C14: parts of the tree account for the whole (where no merge lets git leave
\* out a branch that did not matter to the paths)
PathsAddUp ==
    (\A i \in 1..Len(h.cs) : ~IsMerge(h.cs[i])) =>
    LET q(ps) == [Q("table", "lines") EXCEPT !.paths = ps]
        L(ps) == Sum(Rows(q(ps)), LAMBDA r : r.added + r.removed)
    IN /\ L(<<>>) = L(<<Path1(P1)>>) + L(<<Path1("b")>>)
       /\ Rows(q(<<Path1(P2)>>)) = Rows(q(<<Path1("b/")>>))
       /\ Rows(q(<<[Path1(P1) EXCEPT !.x = TRUE]>>)) = Rows(q(<<Path1("b")>>))

\* C15: --author and --nauthor of one pattern share the commits out
AuthorsSplit ==
    \A pat \in {"Ann", "<bob", "@", "zzz"} :
        LET q == Q("table", "commits")
            a == Cx([q EXCEPT !.au = <<pat>>], {})
            n == Cx([q EXCEPT !.nau = <<pat>>], {})
        IN a.sel \cap n.sel = {} /\ a.sel \cup n.sel = Cx(q, {}).sel
DatesSplit ==
    \A i \in 1..Len(h.cs) :
        LET q == Q("table", "commits")
            t == h.cs[i].ct
        IN Cx([q EXCEPT !.until = t - 1], {}).sel \cup Cx([q EXCEPT !.since = t], {}).sel = Cx(q, {}).sel

\* C16: a range is what one side has and the other has not
RangesSplit ==
    \A i, j \in 1..Len(h.cs) :
        LET q(revs) == [Q("table", "commits") EXCEPT !.revs = revs]
            S(revs) == Cx(q(revs), {}).sel
        IN /\ S(<<Between(i, j)>>) = Reach(h, {j}) \ Reach(h, {i})
           /\ S(<<Ref(i), Ref(j)>>) = Reach(h, {i}) \cup Reach(h, {j})
           /\ S(<<[Between(i, j) EXCEPT !.k = "sym"]>>)
              = S(<<Between(i, j)>>) \cup S(<<Between(j, i)>>)

\* C17, C18, C23: nodes of the tree
TreeFits ==
    \A mode \in Modes :
        LET q == Q("tree", mode)
            c == Cx(q, {})
            T == TreeOf(c, q, DOMAIN h.trees[Tip])
            A(x) == NodeAuthors(c, q, T, x)
            L == Lines(c, q, T, <<>>, [path |-> ".", depth |-> 0, up |-> NoNode, fin |-> <<>>], 100)
            leaves == {x \in T.live : T.kids[x] = {} /\ x # <<>>}
        IN T.P # {} =>
           /\ A(<<>>) = Authors(c, c.cnt, AnyChange)
           /\ \A x \in T.nodes : \A y \in T.kids[x] :
                /\ T.below[y] \subseteq T.below[x]
                /\ \A r \in A(y) : \E s \in A(x) : s.key = r.key /\ s.commits >= r.commits
                                                   /\ s.added >= r.added /\ s.files >= r.files
           /\ \A x \in T.nodes : T.kids[x] # {} /\ x # <<>> =>
                Sum(A(x), LAMBDA r : r.added) = FoldSet(LAMBDA y, acc : acc + Sum(A(y), LAMBDA r : r.added), 0, T.kids[x])
           \* every live file is on one line
           /\ \A x \in leaves : Cardinality({k \in DOMAIN L : L[k].node = x}) = 1
           /\ \A k \in DOMAIN L : L[k].node \in T.live

\* C19, C20, C23: rows of the timeline
HistFits ==
    \A mode \in {"commits", "lines"} :
        LET q == [Q("hist", mode) EXCEPT !.revs = <<Ref(Tip)>>]
            c == Cx(q, {})
            T == Timeline(c, q, Zero0, FarFuture)
            in(k) == {i \in c.cnt : RowOfDay(T.res, T.days[i]) = T.rows[k]}
        IN /\ \A k \in 1..(Len(T.rows) - 1) : T.rows[k + 1] = T.rows[k] + 1
           /\ UNION {in(k) : k \in DOMAIN T.rows} = c.cnt
           /\ \A k, m \in DOMAIN T.rows : k # m => in(k) \cap in(m) = {}
           /\ FoldSet(LAMBDA k, acc : acc + BucketTotal(c, mode, in(k)), 0, DOMAIN T.rows)
              = BucketTotal(c, mode, c.cnt)

Fits ==
    Whole => /\ Accounts /\ RankingIsOrder /\ MergesAddCommitsOnly /\ IgnoringLeavesOut
             /\ PathsAddUp /\ AuthorsSplit /\ DatesSplit /\ RangesSplit /\ TreeFits /\ HistFits

World == [k \in 1..Len(h.cs) |-> h.cs[k]]
Show == (Emit /\ Whole) => PrintT("@" \o ToJson(World))
=============================================================================
