----------------------------- MODULE ArgsModel ----------------------------
(* All short command lines over a vocabulary, and random longer ones: what   *)
(* must hold of how they are read.  Emit prints them, to be run for real.    *)
EXTENDS Args, Json

CONSTANTS MaxLen, Emit,
          Sane,    \* mostly sensible lines
          Rand     \* one random word of each kind instead of all (for simulation)
VARIABLES argv, phase
vars == <<argv, phase>>

Names == ("HEAD" :> 5) @@ ("main" :> 5) @@ ("HEAD~1" :> 3) @@ ("v1" :> 2) @@ ("dev" :> 4)
         @@ ("{s:2}" :> 2) @@ ("{h:1}" :> 1) @@ ("refs/tags/v1" :> 2) @@ ("both/x" :> 3) @@ ("@" :> 5)
Files == {"a.txt", "src", "src/", "src/x.c", "v1", "dev.txt", "both", "both/x", ".", "sp ace", "HEAD"}
Dates == ("@1600100000" :> 1600100000) @@ ("2020-09-15T00:00:00Z" :> 1600128000) @@ ("" :> -1)

Cmds == {"table", "tree", "hist"}
Tops == {"-v", "--v", "--version", "-version", "-h", "--help"}
Flag(c) ==
    {"-l", "--l", "-f", "-l=true", "-l=false", "--f=F", "-e", "-e=0", "--merges", "-merges=1"}
    \cup (IF c = "hist" THEN {} ELSE {"-m", "-c", "--c=0", "-m=t"})
    \cup (IF c = "table" THEN {"--csv", "-csv", "--csv=false", "-n=2", "--n=0x1", "-n=010", "-n=1"} ELSE {})
    \cup (IF c = "tree" THEN {"-a", "--a=true", "-d=1", "--d=2"} ELSE {})
    \cup {"--author=Ann", "-nauthor=Ann", "--author=bob", "--since=@1600100000",
          "--until=2020-09-15T00:00:00Z", "--until=", "--nauthor=Cy <", "--author=-qa", "--nauthor=-q"}
Val(c) == {<<"--author", "Bob">>, <<"-since", "@1600100000">>, <<"--nauthor", "Cy">>, <<"-author", "-l">>, <<"--author", "-qa@">>}
          \cup (IF c = "table" THEN {<<"-n", "1">>, <<"--n", "+2">>, <<"-n", "0">>} ELSE {})
          \cup (IF c = "tree" THEN {<<"-d", "1">>, <<"--d", "0">>} ELSE {})
Odd == {"-n", "-d", "--since", "--author", "-x", "--l=maybe", "-n=-1", "-n=x", "-n=", "-d=y", "---l", "-=",
        "--=3", "-e=", "--no-such-flag", "-la", "-help", "--h", "-v=1", "2", "-3", "-merges=no", "--csv",
        "-m", "-a", "-version", "--version=true", "hist", "nope", "nope..main", "main..nope", "^nope",
        "nowhere/x", ":/a.txt", ":(top)a.txt", ":!", "a.tx", "HEAD~9", "0000000000000000000000000000000000000001",
        "-n=0o2", "--n=0b1", "-n=99999999999999999999", ":(glob)*.c", ":(exclude,icase)a.txt"}
Revs == {"main", "v1", "dev", "HEAD", "HEAD~1", "v1..main", "main...dev", "^v1", "..dev", "v1..", "dev...",
         "{s:2}", "{h:1}", "^{s:2}", "refs/tags/v1", "both/x", "HEAD~1..dev", "^dev", "@", "@..dev"}
Paths == {"a.txt", "src", "src/", "src/x.c", "*.c", "*x*", ":!src", ":(exclude)a.txt", ":^a.txt", ".", "dev.txt",
          ":!:src", "both", "sp ace", "*both/x"}
Gone == {"gone", "nowhere/x", "v1", "dev", "main", "HEAD", "--", "src/nope", ":!gone", "both/x"}
AllWords == Cmds \cup Tops \cup UNION {Flag(c) : c \in Cmds} \cup Odd \cup Revs \cup Paths \cup Gone \cup {"--"}

Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
Put(ts, ph) == argv' = argv \o ts /\ phase' = ph
Cmd == LET k == TopLen(argv, 0)
       IN IF Len(argv) > k /\ argv[k + 1] \in Cmds THEN argv[k + 1] ELSE "table"

Init == argv = <<>> /\ phase = "start"
Loose == ~Sane /\ \E t \in Pick(AllWords) : Put(<<t>>, "start")
Begin == phase = "start" /\ \E t \in Pick(Cmds) : Put(<<t>>, "flags")
Verbose == phase = "start" /\ argv = <<>> /\ \E t \in {"-v", "--v"} : Put(<<t>>, "start")
AddFlag == phase \in {"start", "flags"} /\ \E t \in Pick(Flag(Cmd)) : Put(<<t>>, "flags")
AddVal == phase \in {"start", "flags"} /\ \E t \in Pick(Val(Cmd)) : Put(t, "flags")
AddRev == phase \in {"start", "flags", "revs"} /\ \E t \in Pick(Revs) : Put(<<t>>, "revs")
AddPath == phase # "named" /\ \E t \in Pick(Paths) : Put(<<t>>, "paths")
Dash == phase \in {"start", "flags", "revs"} /\ Put(<<"--">>, "named")
AddNamed == phase = "named" /\ \E t \in Pick(Paths \cup Gone) : Put(<<t>>, "named")
AddOdd == phase \notin {"named", "odd"} /\ (Rand => RandomElement(1..3) = 1) /\ \E t \in Pick(Odd) : Put(<<t>>, "odd")
AddMore == phase = "odd" /\ \E t \in Pick(AllWords) : Put(<<t>>, "odd")

Next == /\ Len(argv) < MaxLen
        /\ \/ Loose
           \/ Sane /\ (Begin \/ Verbose \/ AddFlag \/ AddVal \/ AddRev \/ AddPath \/ Dash \/ AddNamed
                       \/ AddOdd \/ AddMore)
Spec == Init /\ [][Next]_vars

P(a) == Parse(a, Names, Files, Dates)
R == P(argv)
K == TopLen(argv, 0)
Rest == SubSeq(argv, K + 1, Len(argv))

\* The default subcommand is table
DefaultIsTable ==
    (K = 0 /\ (Rest = <<>> \/ Rest[1] \notin Commands \cup Top)) =>
        LET r == P(<<"table">> \o Rest) IN r = R
\* -v changes nothing about the report
VerboseIsSilent == K = 0 /\ R.kind = "report" => P(<<"-v">> \o argv) = R
\* What comes after -- is paths, and never turned down (magic apart)
AfterDashes ==
    \A i \in DOMAIN argv : argv[i] = "--" /\ R.kind = "report" =>
        \A j \in (i + 1)..Len(argv) : argv[j] # "--" =>
            \E k \in DOMAIN R.q.paths : R.q.paths[k] = PathOf(argv[j])
\* A report is about at most one order
OneOrder == R.kind = "report" => R.q.sorts <= 1 /\ R.q.n >= 0
\* What was accepted stays accepted with a -- added, and means the same,
\* if there were no paths
DashesAtEnd ==
    (R.kind = "report" /\ R.q.paths = <<>> /\ (\A i \in DOMAIN argv : argv[i] # "--")) =>
        P(Append(argv, "--")) = R
\* Both spellings of a flag
Spelling ==
    \A i \in (K + 1)..Len(argv) :
        (StartsWith(argv[i], "-") /\ Len(argv[i]) > 1 /\ ~StartsWith(argv[i], "--")
         /\ R.kind = "report" /\ (\A j \in 1..(i - 1) : argv[j] \notin {"--"})
         /\ (i = 1 \/ argv[i - 1] \notin {"-author", "--author", "--nauthor", "-since", "--since"})
         /\ IndexFrom(argv[i], "-", 2) = 0 /\ argv[i] \notin Top) =>
            P([argv EXCEPT ![i] = "-" \o @]) = R
\* Every revision is one git knows
KnownRevs == R.kind = "report" => \A i \in DOMAIN R.q.revs :
                /\ R.q.revs[i].a \in 1..5 /\ R.q.revs[i].b \in 0..5

Show == Emit => PrintT("@" \o ToJson([argv |-> argv, kind |-> R.kind]))
=============================================================================
