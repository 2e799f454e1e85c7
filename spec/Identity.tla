------------------------------ MODULE Identity ----------------------------
(* Author identity.  A mailmap is a sequence of entries                      *)
(*   [nn, ne, on, oe]  (new name, new email, old name, old email; "" absent) *)
(* read in order, the repository's .mailmap before the configured one.       *)
(* Matching ignores case; `fold` maps every string used to its lower case.   *)
EXTENDS Strs

\* Effective mapping for raw identity (n, e), as git's map_user.
MapUser(mm, fold, n, e) ==
    LET f(s) == IF s \in DOMAIN fold THEN fold[s] ELSE s
        byMail == SelectSeq(mm, LAMBDA x : f(x.oe) = f(e))
        named  == SelectSeq(byMail, LAMBDA x : x.on # "" /\ f(x.on) = f(n))
        plain  == SelectSeq(byMail, LAMBDA x : x.on = "")
        \* entries without old name accumulate field by field; the last entry
        \* with a given old name wins as a whole
        lastOf(s, sel(_)) ==
            LET c == SelectSeq(s, LAMBDA x : sel(x) # "")
            IN IF Len(c) = 0 THEN "" ELSE sel(c[Len(c)])
        nn == IF Len(named) > 0 THEN named[Len(named)].nn
              ELSE lastOf(plain, LAMBDA x : x.nn)
        ne == IF Len(named) > 0 THEN named[Len(named)].ne
              ELSE lastOf(plain, LAMBDA x : x.ne)
    IN [n |-> IF nn = "" THEN n ELSE nn, e |-> IF ne = "" THEN e ELSE ne]

AuthorLine(who) == who.n \o " <" \o who.e \o ">"

\* A filter pattern: a literal, optionally anchored with ^ and $.
PatMatch(p, line) ==
    LET l == StartsWith(p, "^")
        q == IF l THEN DropN(p, 1) ELSE p
        r == EndsWith(q, "$")
        s == IF r THEN TakeN(q, Len(q) - 1) ELSE q
    IN IF l /\ r THEN line = s
       ELSE IF l THEN StartsWith(line, s)
       ELSE IF r THEN EndsWith(line, s)
       ELSE HasSub(line, s)
=============================================================================
