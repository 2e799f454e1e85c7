------------------------------ MODULE TreeView ----------------------------
(* `git who tree`: who ranks first at every file and directory.              *)
EXTENDS Tally, Render

\* Paths under the current directory, relative to it
UnderCwd(cwd, p) == StartsWith(p, cwd) /\ Len(p) > Len(cwd)
RelPath(cwd, p) == DropN(p, Len(cwd))

\* All nodes: every non-empty prefix of a relative path, as component lists,
\* and the root <<>>
NodePrefixes(comps) == {SubSeq(comps, 1, k) : k \in 0..Len(comps)}

\* The structure of the tree, as a record of functions over the nodes
TreeOf(c, q, tracked) ==
    LET changed == UNION {{c.ch[i][k].p : k \in DOMAIN c.ch[i]} : i \in c.cnt}
        P == {p \in changed : UnderCwd(q.cwd, p)}
        comps == TLCEval([p \in P |-> SplitOn(RelPath(q.cwd, p), "/")])
        leaves == {comps[p] : p \in P}
        nodes == TLCEval(UNION {NodePrefixes(comps[p]) : p \in P})
        below == TLCEval([x \in nodes |->
                    {p \in P : Len(comps[p]) >= Len(x) /\ SubSeq(comps[p], 1, Len(x)) = x}])
        kids == TLCEval([x \in nodes |->
                    {y \in nodes : Len(y) = Len(x) + 1 /\ SubSeq(y, 1, Len(x)) = x}])
        shown(p) == p \in tracked /\ PathMatch(q.cwd, q.paths, p)
    IN [P |-> P, nodes |-> nodes, below |-> below, kids |-> kids,
        live |-> TLCEval({x \in nodes : \E p \in below[x] : shown(p)} \cup {<<>>})]

\* Author rows at node x
NodeAuthors(c, q, T, x) ==
    LET inside(d) == d.p \in T.below[x]
        touches(i) == \E k \in DOMAIN c.ch[i] : inside(c.ch[i][k])
        \* at the top level commits without file changes count as well
        C == {i \in c.cnt : touches(i) \/ (x = <<>> /\ q.cwd = "" /\ Len(c.ch[i]) = 0)}
    IN Authors(c, C, inside)

TreeMetric(mode, now, r) ==
    CASE mode = "lines" ->
           {"(" \o a \o " / " \o d \o ")" : a \in NumberTexts(r.added), d \in NumberTexts(r.removed)}
      [] mode = "commits" -> {"(" \o s \o ")" : s \in NumberTexts(r.commits)}
      [] mode = "files" -> {"(" \o s \o ")" : s \in NumberTexts(r.files)}
      [] mode = "last" -> {"(" \o RelativeTime(now, r.last) \o ")"}
      [] mode = "first" -> {"(" \o RelativeTime(now, r.first) \o ")"}

\* Children in listing order: directories first, each kind alphabetically
KidSeq(c, T, x) ==
    SetToSortSeq(T.kids[x], LAMBDA a, b :
        LET da == T.kids[a] # {}
            db == T.kids[b] # {}
            na == c.rank[a[Len(a)]]
            nb == c.rank[b[Len(b)]]
        IN IF da = db THEN na < nb ELSE da)

Indent(fin) ==
    FoldLeft(LAMBDA acc, i :
                acc \o (IF i < Len(fin) THEN (IF fin[i] THEN "    " ELSE "│   ")
                        ELSE (IF fin[i] THEN "└── " ELSE "├── ")),
             "", [i \in 1..Len(fin) |-> i])

\* Lines to print: [node, up (the node of the line it hangs off), text]
RECURSIVE Lines(_, _, _, _, _, _)
Lines(c, q, T, x, st, max) ==
    \* st: [path, depth, up, fin]
    LET kids == T.kids[x]
        isDir == kids # {}
    IN IF st.depth > max THEN <<>>
       ELSE IF st.depth < max /\ Cardinality(kids) = 1
       THEN LET y == CHOOSE k \in kids : TRUE
                name == y[Len(y)]
            IN Lines(c, q, T, y,
                     [st EXCEPT !.path = IF st.path = "." THEN name ELSE st.path \o "/" \o name,
                                !.depth = @ + 1], max)
       ELSE LET ks == KidSeq(c, T, x)
                vis(y) == q.all \/ y \in T.live
                last == LET V == {k \in DOMAIN ks : vis(ks[k])} IN IF V = {} THEN 1 ELSE MaxOf(V)
                self == IF vis(x)
                        THEN <<[node |-> x, up |-> st.up, dir |-> isDir,
                                text |-> Indent(st.fin) \o st.path \o (IF isDir THEN "/" ELSE "")]>>
                        ELSE <<>>
            IN self \o
               FoldLeft(LAMBDA acc, k :
                          acc \o Lines(c, q, T, ks[k],
                                       [path |-> ks[k][Len(ks[k])], depth |-> st.depth + 1,
                                        up |-> x, fin |-> Append(st.fin, k = last)], max),
                        <<>>, [k \in DOMAIN ks |-> k])

NoNode == <<"">>

\* Clauses broken by the printed lines
TreeFaults(c, q, cw, now, tracked, lines) ==
    LET T == TLCEval(TreeOf(c, q, tracked))
    IN IF T.P = {} THEN (IF Len(lines) = 0 THEN {} ELSE {"not-empty"})
    ELSE
    LET max == IF q.d = 0 THEN 100 ELSE q.d
        L == TLCEval(Lines(c, q, T, <<>>, [path |-> ".", depth |-> 0, up |-> NoNode, fin |-> <<>>], max))
        n == Len(L)
        W == TLCEval([j \in 1..n |-> Winners(q.mode, NodeAuthors(c, q, T, L[j].node))])
        keyOf(a) == IF q.email THEN a.e ELSE a.n
        authorText(a) == Abbrev(cw, IF q.email THEN "<" \o a.e \o ">" ELSE a.n, 25)
        \* the part after the path: dots, then author and value
        tail(j) == DropN(lines[j], Len(L[j].text))
        isDots(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) = "."
        shows(j, a) ==
            \E m \in TreeMetric(q.mode, now, a) :
                LET s == authorText(a) \o " " \o m
                IN EndsWith(tail(j), s) /\ isDots(TakeN(tail(j), Len(tail(j)) - Len(s)))
        \* possible winners in view of what is printed, line by line
        \* (pos: node -> authors' keys it may have been given to)
        step(acc, j) ==
            LET node == L[j].node
                up == L[j].up
                upKeys == IF up \in DOMAIN acc.pos THEN acc.pos[up] ELSE {}
                bare == tail(j) = ""
                cand == IF bare
                        THEN (IF L[j].dir \/ q.all THEN {} ELSE {a \in W[j] : keyOf(a) \in upKeys})
                        ELSE {a \in W[j] : shows(j, a)
                                  /\ (L[j].dir \/ q.all \/ keyOf(a) = "" \/ upKeys # {keyOf(a)})}
                mayBare == ~L[j].dir /\ ~q.all /\ \E a \in W[j] : keyOf(a) \in upKeys
            IN [pos |-> With(acc.pos, node, {keyOf(a) : a \in cand}),
                bad |-> acc.bad \cup
                        (IF cand # {} THEN {}
                         ELSE IF bare THEN {"author-absent"}
                         ELSE IF \E a \in W[j] : shows(j, a) THEN {"author-repeated"}
                         ELSE IF mayBare /\ \A a \in W[j] : keyOf(a) \in upKeys
                              THEN {"author-repeated"}
                         ELSE {"winner"})]
        okPaths == Len(lines) = n /\ \A j \in 1..n :
                      StartsWith(lines[j], L[j].text)
                      /\ (tail(j) = "" \/ StartsWith(tail(j), "."))
    IN IF ~okPaths THEN {"tree-paths"}
       ELSE FoldLeft(step, [pos |-> With([x \in {} |-> {}], NoNode, {""}), bad |-> {}],
                     [j \in 1..n |-> j]).bad
=============================================================================
