-------------------------------- MODULE Args ------------------------------
(* Command lines: from the arguments to the query a run must answer, or to   *)
(* its being turned down.  names maps what git resolves to a commit to that  *)
(* commit's id, files is what exists (relative to the current directory),    *)
(* dates maps the dates that may be given to instants.                       *)
EXTENDS Strs

Blank == [cmd |-> "table", mode |-> "commits", email |-> FALSE, merges |-> FALSE, csv |-> FALSE,
          n |-> 10, d |-> 0, all |-> FALSE, revs |-> <<>>, paths |-> <<>>, cwd |-> "", since |-> -1,
          until |-> -1, au |-> <<>>, nau |-> <<>>, sorts |-> 0, badflag |-> FALSE, norepo |-> FALSE,
          tz |-> "UTC", cache |-> TRUE]

\* ---- values ----
Truths == {"1", "t", "T", "TRUE", "true", "True"}
Lies == {"0", "f", "F", "FALSE", "false", "False"}

Digits(base) == IF base = 16 THEN "0123456789abcdef" ELSE TakeN("0123456789", base)
DigitOf(c, base) == IndexFrom(Digits(base), c, 1) - 1
NaN == [ok |-> FALSE, v |-> 0]
RECURSIVE Short(_)
Short(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Short(DropN(s, 1)) ELSE s
InBase(s0, base) ==
    LET s == Short(s0) IN
    IF Len(s) = 0 \/ Len(s) > 9 THEN NaN
    ELSE FoldLeft(LAMBDA acc, i : LET d == DigitOf(Ch(s, i), base)
                                  IN IF ~acc.ok \/ d < 0 THEN NaN ELSE [ok |-> TRUE, v |-> acc.v * base + d],
                  [ok |-> TRUE, v |-> 0], [i \in 1..Len(s) |-> i])
Unsigned(s) ==
    IF StartsWith(s, "0x") THEN InBase(DropN(s, 2), 16)
    ELSE IF StartsWith(s, "0b") THEN InBase(DropN(s, 2), 2)
    ELSE IF StartsWith(s, "0o") THEN InBase(DropN(s, 2), 8)
    ELSE IF StartsWith(s, "0") /\ Len(s) > 1 THEN InBase(DropN(s, 1), 8)
    ELSE InBase(s, 10)
Number(s) ==
    IF StartsWith(s, "-") THEN LET x == Unsigned(DropN(s, 1)) IN [x EXCEPT !.v = 0 - @]
    ELSE IF StartsWith(s, "+") THEN Unsigned(DropN(s, 1))
    ELSE Unsigned(s)

\* ---- flags ----
Sorts(cmd) == IF cmd = "hist" THEN {"l", "f"} ELSE {"l", "f", "m", "c"}
Bools(cmd) == Sorts(cmd) \cup {"e", "merges"}
              \cup (IF cmd = "table" THEN {"csv"} ELSE {}) \cup (IF cmd = "tree" THEN {"a"} ELSE {})
Ints(cmd) == IF cmd = "table" THEN {"n"} ELSE IF cmd = "tree" THEN {"d"} ELSE {}
Texts == {"since", "until", "author", "nauthor"}
ModeOf(c) == CASE c = "l" -> "lines" [] c = "f" -> "files" [] c = "m" -> "last" [] c = "c" -> "first"

Is(kind) == [kind |-> kind, on |-> {}, q |-> Blank, rest |-> <<>>]

PlainText(v) == v # "" /\ \A i \in 1..Len(v) :
                   Ch(v, i) \notin {"\\", ".", "*", "[", "]", "^", "$", "+", "?", "(", ")", "{", "}", "|"}

SetText(st, name, v, dates) ==
    CASE name = "author" -> [st EXCEPT !.q.au = Append(@, v)]
      [] name = "nauthor" -> [st EXCEPT !.q.nau = Append(@, v)]
      [] name = "since" -> [st EXCEPT !.q.since = dates[v]]
      [] name = "until" -> [st EXCEPT !.q.until = dates[v]]

\* Flags up to the first argument that is none.  `--` is none.
RECURSIVE Flags(_, _, _)
Flags(st, args, dates) ==
    IF Len(args) = 0 \/ Len(args[1]) < 2 \/ Ch(args[1], 1) # "-" \/ args[1] = "--"
    THEN [st EXCEPT !.rest = args]
    ELSE LET a == args[1]
             body == IF StartsWith(a, "--") THEN DropN(a, 2) ELSE DropN(a, 1)
             eq == IndexFrom(body, "=", 2)
             name == IF eq = 0 THEN body ELSE TakeN(body, eq - 1)
             val == IF eq = 0 THEN "" ELSE DropN(body, eq)
             cmd == st.q.cmd
             more == Tail(args)
             \* a value of its own, or the next argument
             has == eq > 0 \/ Len(more) > 0
             v == IF eq > 0 THEN val ELSE IF has THEN more[1] ELSE ""
             after == IF eq > 0 \/ ~has THEN more ELSE Tail(more)
         IN IF body = "" \/ Ch(body, 1) \in {"-", "="} THEN Is("reject")
            ELSE IF name \in Bools(cmd)
            THEN IF eq > 0 /\ val \notin Truths \cup Lies THEN Is("reject")
                 ELSE Flags([st EXCEPT !.on = IF eq > 0 /\ val \in Lies THEN @ \ {name} ELSE @ \cup {name}],
                            more, dates)
            ELSE IF name \in Ints(cmd)
            THEN LET x == Number(v)
                 IN IF ~has \/ ~x.ok THEN Is("reject")
                    ELSE Flags(IF name = "n" THEN [st EXCEPT !.q.n = x.v] ELSE [st EXCEPT !.q.d = x.v],
                               after, dates)
            ELSE IF name \in Texts
            THEN IF ~has THEN Is("reject")
                 \* dates we do not know how to read, and patterns that are not plain text
                 ELSE IF (name \in {"since", "until"} /\ v \notin DOMAIN dates)
                         \/ (name \in {"author", "nauthor"} /\ ~PlainText(v)) \/ (eq = 0 /\ v = "--")
                 THEN Is("any")
                 ELSE Flags(SetText(st, name, v, dates), after, dates)
            ELSE IF name \in {"h", "help"} THEN [Is("help") EXCEPT !.q.cmd = cmd]
            ELSE Is("reject")

\* ---- revisions and paths ----
Sub(s, p) == IF HasSub(s, p) THEN CHOOSE i \in 1..Len(s) : /\ SubSeq(s, i, i + Len(p) - 1) = p
                                                            /\ \A j \in 1..(i - 1) : SubSeq(s, j, j + Len(p) - 1) # p
             ELSE 0
NoRev == [k |-> "no", a |-> 0, b |-> 0]
Rev(names, t) ==
    LET i == Sub(t, "..")
        three == i > 0 /\ i + 2 <= Len(t) /\ Ch(t, i + 2) = "."
        l == IF i > 1 THEN TakeN(t, i - 1) ELSE "HEAD"
        r0 == IF i = 0 THEN "" ELSE DropN(t, i + (IF three THEN 2 ELSE 1))
        r == IF r0 = "" THEN "HEAD" ELSE r0
    IN IF t = ".." THEN NoRev
       ELSE IF i > 0 /\ l \in DOMAIN names /\ r \in DOMAIN names
       THEN [k |-> IF three THEN "sym" ELSE "range", a |-> names[l], b |-> names[r]]
       ELSE IF t \in DOMAIN names THEN [k |-> "ref", a |-> names[t], b |-> 0]
       ELSE IF StartsWith(t, "^") /\ DropN(t, 1) \in DOMAIN names
       THEN [k |-> "neg", a |-> names[DropN(t, 1)], b |-> 0]
       ELSE NoRev

Excluding == {":!", ":^", ":(exclude)", ":!:", ":^:"}
PathOf(t) ==
    IF ~StartsWith(t, ":") THEN [s |-> t, x |-> FALSE, m |-> "ok"]
    ELSE LET E == {e \in Excluding : StartsWith(t, e)}
             e == CHOOSE x \in E : \A y \in E : Len(y) <= Len(x)
             s == IF E = {} THEN t ELSE DropN(t, Len(e))
         IN IF E = {} \/ (Len(e) = 2 /\ (s = "" \/ Ch(s, 1) \in {"!", "^", "/"}))
            THEN [s |-> t, x |-> FALSE, m |-> "magic"]
            ELSE [s |-> s, x |-> TRUE, m |-> "ok"]

Wild(t) == \E i \in 1..Len(t) : Ch(t, i) \in {"*", "?", "["}
\* Before `--`, and without one, paths must be there
Present(files, t) ==
    \/ Wild(t) \/ StartsWith(t, ":(")
    \/ t \in files
    \/ Len(t) > 2 /\ TakeN(t, 2) \in {":!", ":^"} /\ DropN(t, 2) \in files

Positional(names, files, rest) ==
    LET dd == \E i \in DOMAIN rest : rest[i] = "--"
        step(st, t) ==
            IF st.kind # "report" THEN st
            ELSE IF st.at = "named" THEN (IF t = "--" THEN st ELSE [st EXCEPT !.paths = Append(@, PathOf(t))])
            ELSE IF t = "--" THEN [st EXCEPT !.at = "named"]
            \* flags come first; what follows is not ours to say
            ELSE IF StartsWith(t, "-") THEN [st EXCEPT !.kind = IF st.at = "paths" THEN "reject" ELSE "any"]
            ELSE IF st.at = "revs" /\ Rev(names, t).k # "no"
            THEN [st EXCEPT !.revs = Append(@, Rev(names, t))]
            ELSE IF dd \/ ~Present(files, t) THEN [st EXCEPT !.kind = "reject"]
            ELSE [st EXCEPT !.at = "paths", !.paths = Append(@, PathOf(t))]
    IN FoldLeft(step, [kind |-> "report", at |-> "revs", revs |-> <<>>, paths |-> <<>>], rest)

\* ---- the whole line ----
Top == {"-version", "--version", "-v", "--v", "-h", "--help"}
Commands == {"table", "tree", "hist"}
RECURSIVE TopLen(_, _)
TopLen(argv, i) == IF i < Len(argv) /\ argv[i + 1] \in Top THEN TopLen(argv, i + 1) ELSE i

\* kind: report (then q is the query), reject, help (q.cmd: of what, "" of
\* all), version, any (not specified)
Parse(argv, names, files, dates) ==
    LET k == TopLen(argv, 0)
        top == SubSeq(argv, 1, k)
        args == SubSeq(argv, k + 1, Len(argv))
        named == Len(args) > 0 /\ args[1] \in Commands
        q0 == [Blank EXCEPT !.cmd = IF named THEN args[1] ELSE "table"]
        f == Flags([kind |-> "report", on |-> {}, q |-> q0, rest |-> <<>>],
                   IF named THEN Tail(args) ELSE args, dates)
        p == Positional(names, files, f.rest)
        S == f.on \cap Sorts(f.q.cmd)
        res(kind, q) == [kind |-> kind, q |-> q]
    IN IF SeqSet(top) \cap {"-h", "--help"} # {} THEN res("help", [Blank EXCEPT !.cmd = ""])
       ELSE IF SeqSet(top) \cap {"-version", "--version"} # {} THEN res("version", Blank)
       ELSE IF f.kind # "report" THEN res(f.kind, f.q)
       ELSE IF p.kind = "reject" \/ Cardinality(S) > 1 \/ f.q.n < 0
               \/ \E i \in DOMAIN p.paths : p.paths[i].m # "ok" THEN res("reject", f.q)
       ELSE IF p.kind = "any" THEN res("any", f.q)
       ELSE res("report",
                [f.q EXCEPT !.mode = IF S = {} THEN "commits" ELSE ModeOf(CHOOSE x \in S : TRUE),
                            !.email = "e" \in f.on, !.merges = "merges" \in f.on,
                            !.csv = "csv" \in f.on, !.all = "a" \in f.on,
                            !.revs = p.revs, !.paths = p.paths, !.sorts = Cardinality(S)])
=============================================================================
