------------------------------ MODULE History -----------------------------
(* The abstract repository: commits form a DAG given as a sequence in        *)
(* topological order (parents have smaller ids).  A commit record is         *)
(*   [id, par, an, ae, at, ct, ops]                                          *)
(* raw author name/email, author time, commit time, and the edits it makes   *)
(* relative to its first parent's file tree:                                 *)
(*   w  p a r   add a lines, remove r lines (create p if absent)             *)
(*   b  p       write a new version of the binary file p                     *)
(*   x  p       change the mode of p                                         *)
(*   ln p       make p a symbolic link to somewhere new                      *)
(*   sm p       make p a submodule at a new commit                           *)
(*   d  p       delete p                                                     *)
(*   mv p q a r rename p to q, then add a and remove r lines                 *)
(*   tk p k     (merges) take p as it is in commit k, or remove it           *)
(* A file tree maps paths to versions [v, n, b, l, s]: identity of content   *)
(* and mode, number of lines, binary or not, link or submodule (one line),   *)
(* submodule.  The identity is the write that made the content, how many     *)
(* lines were cut off its start since, and the executable bit.               *)
EXTENDS Strs

EmptyTree == [p \in {} |-> [v |-> [w |-> 0, cut |-> 0, x |-> FALSE], n |-> 0, b |-> FALSE, s |-> FALSE]]
Without(f, p) == [x \in (DOMAIN f) \ {p} |-> f[x]]
With(f, p, v) == [x \in (DOMAIN f) \cup {p} |-> IF x = p THEN v ELSE f[x]]

\* Apply one edit: returns [tree, diffs]
Edit(trees, id, st, k, o) ==
    LET t == st.tree
        has(p) == p \in DOMAIN t
        fresh(p, n, bin) ==
            [v |-> [w |-> id * 1000 + k, cut |-> 0, x |-> IF has(p) THEN t[p].v.x ELSE FALSE],
             n |-> n, b |-> bin, l |-> FALSE, s |-> FALSE]
        link == [v |-> [w |-> id * 1000 + k, cut |-> 0, x |-> FALSE], n |-> 1, b |-> FALSE, l |-> TRUE,
                 s |-> o.op = "sm"]
        \* a lines added at the end, r removed from the start
        changed(f, a, r) ==
            IF a = 0 /\ r = 0 THEN f
            ELSE IF a = 0 THEN [f EXCEPT !.v.cut = @ + r, !.n = @ - r]
            ELSE [f EXCEPT !.v.w = id * 1000 + k, !.v.cut = 0, !.n = @ + a - r]
        diff(p, a, r) == Append(st.diffs, [p |-> p, o |-> p, a |-> a, r |-> r])
    IN  CASE o.op = "w" /\ has(o.p) /\ t[o.p].l ->
               [tree |-> With(t, o.p, fresh(o.p, o.a, FALSE)), diffs |-> diff(o.p, o.a, 1)]
          [] o.op \in {"ln", "sm"} ->
               [tree |-> With(t, o.p, link),
                diffs |-> IF has(o.p) /\ t[o.p].b THEN diff(o.p, 0, 0)
                          ELSE diff(o.p, 1, IF has(o.p) THEN t[o.p].n ELSE 0)]
          [] o.op = "w" /\ has(o.p) /\ ~t[o.p].b ->
               [tree |-> With(t, o.p, changed(t[o.p], o.a, o.r)), diffs |-> diff(o.p, o.a, o.r)]
          [] o.op = "w" /\ has(o.p) /\ t[o.p].b ->
               [tree |-> With(t, o.p, fresh(o.p, o.a, FALSE)), diffs |-> diff(o.p, 0, 0)]
          [] o.op = "w" /\ ~has(o.p) ->
               [tree |-> With(t, o.p, fresh(o.p, o.a, FALSE)), diffs |-> diff(o.p, o.a, 0)]
          [] o.op = "b" ->
               [tree |-> With(t, o.p, fresh(o.p, 0, TRUE)), diffs |-> diff(o.p, 0, 0)]
          [] o.op = "x" ->
               [tree |-> With(t, o.p, [t[o.p] EXCEPT !.v.x = ~@]), diffs |-> diff(o.p, 0, 0)]
          [] o.op = "d" ->
               [tree |-> Without(t, o.p), diffs |-> diff(o.p, 0, t[o.p].n)]
          [] o.op = "mv" ->
               [tree |-> With(Without(t, o.p), o.q, changed(t[o.p], o.a, o.r)),
                diffs |-> Append(st.diffs, [p |-> o.q, o |-> o.p, a |-> o.a, r |-> o.r])]
          [] o.op = "tk" ->
               [tree |-> IF o.p \in DOMAIN trees[o.k] THEN With(t, o.p, trees[o.k][o.p])
                         ELSE Without(t, o.p),
                diffs |-> st.diffs]

\* State of one commit: tree after it and the numstat git reports for it.
\* git shows no diff for merges.
CommitState(trees, c) ==
    LET base == IF Len(c.par) = 0 THEN EmptyTree ELSE trees[c.par[1]]
        res == FoldLeft(LAMBDA st, k : TLCEval(Edit(trees, c.id, st, k, c.ops[k])),
                        [tree |-> base, diffs |-> <<>>],
                        [k \in 1..Len(c.ops) |-> k])
    IN  [tree |-> res.tree, diffs |-> IF Len(c.par) > 1 THEN <<>> ELSE res.diffs]

\* Grow a repository [cs, trees, diffs, dull] by a sequence of commit records.
\* dull: attributes that make git treat files as binary, as [k, t]: the file t
\* (path), all files below t (under), or those whose name ends with t (ext).
\* (all: every file).
\* renames: whether git is to look for renamed files.
\* mute: the submodules git is to ignore ("*": all).
AddCommits(h, new) ==
    FoldLeft(LAMBDA acc, c :
                LET s == CommitState(acc.trees, c)
                IN [cs |-> Append(acc.cs, c),
                    trees |-> Append(acc.trees, s.tree),
                    diffs |-> Append(acc.diffs, s.diffs),
                    dull |-> acc.dull, renames |-> acc.renames, mute |-> acc.mute],
             h, new)
EmptyHistory == [cs |-> <<>>, trees |-> <<>>, diffs |-> <<>>, dull |-> {}, renames |-> TRUE,
                 mute |-> {}]

Dull(h, p) == \E d \in h.dull : \/ d.k = "all"
                                \/ d.k = "path" /\ d.t = p
                                \/ d.k = "under" /\ StartsWith(p, d.t \o "/")
                                \/ d.k = "ext" /\ EndsWith(p, d.t)
\* A renamed file of commit i is one that went and another that came
Apart(h, i, s) ==
    FoldLeft(LAMBDA acc, d :
                IF d.o = d.p THEN Append(acc, d)
                ELSE acc \o <<[p |-> d.o, o |-> d.o, a |-> 0, r |-> h.trees[h.cs[i].par[1]][d.o].n],
                              [p |-> d.p, o |-> d.p, a |-> h.trees[i][d.p].n, r |-> 0]>>,
             <<>>, s)
\* A path git does not look at, from tree a to tree b
Muted(h, a, b, p) ==
    /\ h.mute # {} /\ ("*" \in h.mute \/ p \in h.mute)
    /\ p \in DOMAIN a => a[p].s
    /\ p \in DOMAIN b => b[p].s
Unmuted(h, i, s) ==
    LET a == IF h.cs[i].par = <<>> THEN EmptyTree ELSE h.trees[h.cs[i].par[1]]
        b == h.trees[i]
        off(p) == Muted(h, a, b, p)
    IN IF h.mute = {} THEN s
       ELSE FoldLeft(LAMBDA acc, d :
                       IF d.o = d.p THEN IF off(d.p) THEN acc ELSE Append(acc, d)
                       ELSE IF ~off(d.o) /\ ~off(d.p) THEN Append(acc, d)
                       ELSE acc \o (IF off(d.o) THEN <<>> ELSE <<[p |-> d.o, o |-> d.o, a |-> 0, r |-> 1]>>)
                                \o (IF off(d.p) THEN <<>> ELSE <<[p |-> d.p, o |-> d.p, a |-> 1, r |-> 0]>>),
                     <<>>, s)
\* The changes of commit i as git is told to count them: no lines of what it
\* treats as binary, before or after
Counted(h, i) ==
    LET s == Unmuted(h, i, IF h.renames THEN h.diffs[i] ELSE Apart(h, i, h.diffs[i]))
        a == IF h.cs[i].par = <<>> THEN EmptyTree ELSE h.trees[h.cs[i].par[1]]
        b == h.trees[i]
        dull(t, p) == p \in DOMAIN t /\ ~t[p].l /\ Dull(h, p)     \* of files only
    IN IF h.dull = {} THEN s
       ELSE [k \in DOMAIN s |-> IF dull(b, s[k].p) \/ dull(a, s[k].o)
                                THEN [s[k] EXCEPT !.a = 0, !.r = 0] ELSE s[k]]

\* What a shallow clone knows: the commits of S have lost their parents, so
\* that they seem to have added everything they contain
CutOff(h, S) ==
    [cs |-> [i \in DOMAIN h.cs |-> IF i \in S THEN [h.cs[i] EXCEPT !.par = <<>>] ELSE h.cs[i]],
     trees |-> h.trees,
     dull |-> h.dull, renames |-> h.renames, mute |-> h.mute,
     diffs |-> [i \in DOMAIN h.cs |->
                  IF i \notin S THEN h.diffs[i]
                  ELSE LET t == h.trees[i]
                       IN [k \in 1..Cardinality(DOMAIN t) |->
                             LET p == SetToSeq(DOMAIN t)[k]
                             IN [p |-> p, o |-> p, a |-> t[p].n, r |-> 0]]]]

\* Another commit c takes the place of the one of that number (git replace):
\* of the same content, but maybe without parents
Substituted(h, c, rootless) ==
    LET h2 == [h EXCEPT !.cs[c.id] = c, !.diffs[c.id] = CommitState(h.trees, c).diffs]
    IN IF rootless THEN CutOff(h2, {c.id}) ELSE h2

IsMerge(c) == Len(c.par) > 1
Down(n) == [i \in 1..n |-> n + 1 - i]

\* Commits reachable from the set S (inclusive)
Reach(h, S) ==
    FoldLeft(LAMBDA acc, i : IF i \in acc THEN acc \cup SeqSet(h.cs[i].par) ELSE acc,
             S, Down(Len(h.cs)))

\* git's selection for start points S, excluded points X.  Same(i, p) says
\* whether commit i and its parent p (0: the empty tree) agree on the files
\* of interest; limited says whether paths were given at all.  X itself is
\* not shown either, but git compares merges with it when it leaves out
\* branches (not with what lies behind it).
Best(h, X) == {i \in X : ~ \E j \in X : j # i /\ i \in Reach(h, {j})}

Walk(h, S, X, limited, Same(_, _)) ==
    LET U == Reach(h, X)
        step(acc, i) ==
            IF i \notin acc.want \/ i \in U THEN acc
            ELSE LET par == h.cs[i].par
                     P == SeqSet(par)
                     R == (P \ U) \cup (P \cap X)
                 IN IF ~limited
                    THEN [want |-> acc.want \cup P, sel |-> acc.sel \cup {i}]
                    ELSE IF Len(par) = 0
                    THEN [want |-> acc.want,
                          sel |-> IF Same(i, 0) THEN acc.sel ELSE acc.sel \cup {i}]
                    ELSE IF Len(par) = 1
                    THEN [want |-> acc.want \cup P,
                          sel |-> IF Same(i, par[1]) THEN acc.sel ELSE acc.sel \cup {i}]
                    ELSE LET good == {k \in 1..Len(par) : par[k] \in R /\ Same(i, par[k])}
                         IN IF good # {}
                            THEN [want |-> acc.want \cup {par[MinOf(good)]}, sel |-> acc.sel]
                            ELSE [want |-> acc.want \cup R,
                                  sel |-> IF R # {} \/ (\E p \in P : ~Same(i, p))
                                          THEN acc.sel \cup {i} ELSE acc.sel]
    IN FoldLeft(step, [want |-> S, sel |-> {}], Down(Len(h.cs))).sel
=============================================================================
