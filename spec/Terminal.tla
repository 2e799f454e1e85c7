------------------------------ MODULE Terminal ----------------------------
(* Reports on a terminal.  While git is asked for many commits a progress    *)
(* line is shown, again and again, and erased in the end; what is left on    *)
(* the screen is the report (judged like any other).  An observation is the  *)
(* sequence of progress lines seen, each <<percent, done, total>>, or <<text>> *)
(* for a line of another form that was erased.                               *)
EXTENDS Relations, Delivery

\* 12,345 (below a million)
Plain(s) == JoinWith(SplitOn(s, ","), "")
IsCount(s) == IsNum(Plain(s))
Count(s) == Num(Plain(s))

\* asked: how many commits git was asked for
ProgressFaults(shown, asked) ==
    IF shown = <<>> THEN {}
    ELSE IF \E k \in DOMAIN shown : Len(shown[k]) # 3 THEN {"progress-text"}
    ELSE LET ok(k) == IsNum(shown[k][1]) /\ IsCount(shown[k][2]) /\ IsCount(shown[k][3])
         IN IF \E k \in DOMAIN shown : ~ok(k) THEN {"progress-text"}
            ELSE (IF \E k \in DOMAIN shown : shown[k][3] \notin NumberTexts(asked)
                  THEN {"progress-total"} ELSE {})
                 \cup (IF \E k \in DOMAIN shown : Count(shown[k][2]) > Count(shown[k][3])
                          \/ Num(shown[k][1]) > 100
                       THEN {"progress-beyond"} ELSE {})
                 \cup (IF \E k \in 2..Len(shown) : Count(shown[k][2]) < Count(shown[k - 1][2])
                          \/ Num(shown[k][1]) < Num(shown[k - 1][1])
                       THEN {"progress-back"} ELSE {})
=============================================================================
