------------------------------ MODULE Pathspec ----------------------------
(* Path arguments.  An argument is [x, s]: excluded or not, and the text     *)
(* without magic.  cwd is "" or a directory prefix ending in "/".            *)
EXTENDS Strs

\* Where an argument starts: "/" stands for the top directory, however the
\* absolute path leads there.
From(cwd, s) == IF StartsWith(s, "/") THEN "" ELSE cwd

\* "a/./b/../c/" -> <<"a","c">>; leading ".." climb out of cwd.
Resolve(at, s) ==
    LET cwd == From(at, s)
        base == IF cwd = "" THEN <<>> ELSE SplitOn(TakeN(cwd, Len(cwd) - 1), "/")
        parts == SelectSeq(SplitOn(s, "/"), LAMBDA x : x # "" /\ x # ".")
    IN FoldLeft(LAMBDA acc, x : IF x = ".." THEN Front(acc) ELSE Append(acc, x),
                base, parts)

\* Patterns: * is any characters, ? any one, also /; [xyz] is one of these
\* characters, [!xyz] one not of these.  With an unclosed [ nothing matches.
RECURSIVE Glob(_, _)
Glob(g, s) ==
    IF Len(g) = 0 THEN Len(s) = 0
    ELSE IF Ch(g, 1) = "*" THEN \E i \in 0..Len(s) : Glob(DropN(g, 1), DropN(s, i))
    ELSE IF Ch(g, 1) = "["
    THEN LET neg == Len(g) > 1 /\ Ch(g, 2) \in {"!", "^"}
             a == IF neg THEN 3 ELSE 2
             z == IndexFrom(g, "]", a + 1)
         IN /\ z # 0
            /\ Len(s) > 0
            /\ (\E i \in a..(z - 1) : Ch(g, i) = Ch(s, 1)) # neg
            /\ Glob(DropN(g, z), DropN(s, 1))
    ELSE Len(s) > 0 /\ (Ch(g, 1) = "?" \/ Ch(s, 1) = Ch(g, 1)) /\ Glob(DropN(g, 1), DropN(s, 1))

HasStar(s) == HasSub(s, "*")

\* "a/", "a/." and ".." ask for a directory (or a submodule, which no family
\* names this way)
OnlyDir(s) == LET l == Last(SplitOn(s, "/")) IN l \in {"", ".", ".."}

\* Does the path argument text s, given in cwd, match path p?
MatchOne(cwd, s, p) ==
    LET comps == Resolve(cwd, s)
        full == JoinWith(comps, "/")
    IN IF comps = <<>> THEN TRUE
       ELSE \/ p = full /\ ~OnlyDir(s)
            \/ StartsWith(p, full \o "/")
            \/ LET at == From(cwd, s)
              IN /\ HasStar(s) /\ StartsWith(p, at)
                 /\ Glob(JoinWith(Resolve("", s), "/"), DropN(p, Len(at)))

\* ps: sequence of arguments.  With no includes everything is included.
PathMatch(cwd, ps, p) ==
    LET inc == SelectSeq(ps, LAMBDA a : ~a.x)
        exc == SelectSeq(ps, LAMBDA a : a.x)
    IN /\ (Len(inc) = 0 \/ \E i \in DOMAIN inc : MatchOne(cwd, inc[i].s, p))
       /\ ~ \E i \in DOMAIN exc : MatchOne(cwd, exc[i].s, p)
=============================================================================
