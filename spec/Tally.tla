------------------------------- MODULE Tally ------------------------------
(* What an author's totals are over a set of commits.  ctx bundles the world *)
(* and the query once per run:                                               *)
(*   who[i]   identity of commit i under the mailmaps                        *)
(*   sel      selected commits that exist for the report at all              *)
(*   cnt      those of sel that are counted (merges only with --merges)      *)
(*   ch[i]    the file changes of commit i the query is about                *)
EXTENDS Select, FiniteSetsExt

\* Commits nobody is credited with: ignored ones, ones without any author,
\* ones from the future.
Exists(h, who, ignore, now, i) ==
    /\ i \notin ignore
    /\ ~(who[i].n = "" /\ who[i].e = "")
    /\ h.cs[i].at <= now

Context(h, head, mm, fold, rank, ignore, q, now) ==
    LET who == TLCEval([i \in 1..Len(h.cs) |-> Who(h, mm, fold, i)])
        W == TLCEval(Selected(h, head, q, LAMBDA i : who[i]))
        sel == TLCEval({i \in W : Exists(h, who, ignore, now, i)})
        cnt == TLCEval({i \in sel : q.merges \/ ~IsMerge(h.cs[i])})
        ch == TLCEval([i \in cnt |-> Changes(h, q, i)])
    IN [who |-> who, sel |-> sel, cnt |-> cnt, ch |-> ch,
        cs |-> h.cs, rank |-> rank,
        key |-> TLCEval([i \in cnt |-> IF q.email THEN who[i].e ELSE who[i].n])]

SumOver(S, f(_)) == FoldSet(LAMBDA i, acc : acc + f(i), 0, S)

\* The name an author goes by when one email is used with several names: the
\* one used first; of several used at that very moment the smallest.
NameOf(c, K) ==
    LET t0 == MinOf({c.cs[i].at : i \in K})
        N == {c.who[i].n : i \in {j \in K : c.cs[j].at = t0}}
    IN CHOOSE n \in N : \A m \in N : c.rank[n] <= c.rank[m]
EmailOf(c, K) ==
    LET t0 == MinOf({c.cs[i].at : i \in K})
        J == {j \in K : c.cs[j].at = t0 /\ c.who[j].n = NameOf(c, K)}
        N == {c.who[i].e : i \in J}
    IN CHOOSE n \in N : \A m \in N : c.rank[n] <= c.rank[m]

\* Totals of the commits K, counting only changes for which in(d) holds
Totals(c, K, in(_)) ==
    LET chs(i) == SelectSeq(c.ch[i], in)
    IN [commits |-> Cardinality(K),
        added   |-> SumOver(K, LAMBDA i : SumSeq([k \in DOMAIN chs(i) |-> chs(i)[k].a])),
        removed |-> SumOver(K, LAMBDA i : SumSeq([k \in DOMAIN chs(i) |-> chs(i)[k].r])),
        files   |-> Cardinality(UNION {{chs(i)[k].p : k \in DOMAIN chs(i)} : i \in K}),
        first   |-> MinOf({c.cs[i].at : i \in K}),
        last    |-> MaxOf({c.cs[i].at : i \in K})]

AnyChange(d) == TRUE

\* One row per author over the commits C
Authors(c, C, in(_)) ==
    LET keys == {c.key[i] : i \in C}
        row(k) ==
            LET K == {i \in C : c.key[i] = k}
                t == Totals(c, K, in)
            IN [key |-> k, n |-> NameOf(c, K), e |-> EmailOf(c, K),
                commits |-> t.commits, added |-> t.added, removed |-> t.removed,
                files |-> t.files, first |-> t.first, last |-> t.last]
    IN {row(k) : k \in keys}

Metric(mode, r) ==
    CASE mode = "commits" -> r.commits
      [] mode = "lines" -> r.added + r.removed
      [] mode = "files" -> r.files
      [] mode = "last" -> r.last
      [] mode = "first" -> -r.first

\* a ranks strictly before b; authors equal in both respects are tied
Before(mode, a, b) ==
    \/ Metric(mode, a) > Metric(mode, b)
    \/ Metric(mode, a) = Metric(mode, b) /\ a.last > b.last

Winners(mode, R) == {a \in R : \A b \in R : ~Before(mode, b, a)}

\* Rows in some ranking order
Ranked(mode, R) == SetToSortSeq(R, LAMBDA a, b : Before(mode, a, b))

IsDiffMode(mode) == mode \in {"lines", "files"}
=============================================================================
