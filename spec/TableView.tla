----------------------------- MODULE TableView ----------------------------
(* `git who table`: CSV and human rendering of ranked author rows.           *)
EXTENDS Tally, Render

CsvHeader(q) ==
    <<"name">> \o (IF q.email THEN <<"email">> ELSE <<>>) \o <<"commits">>
    \o (IF IsDiffMode(q.mode) THEN <<"lines added", "lines removed", "files">> ELSE <<>>)
    \o <<"last commit time", "first commit time">>

CsvRow(q, z, r) ==
    <<r.n>> \o (IF q.email THEN <<r.e>> ELSE <<>>) \o <<ToString(r.commits)>>
    \o (IF IsDiffMode(q.mode)
        THEN <<ToString(r.added), ToString(r.removed), ToString(r.files)>> ELSE <<>>)
    \o <<Rfc3339(z, r.last), Rfc3339(z, r.first)>>

Wide(q) == q.email \/ IsDiffMode(q.mode)
ColWidth(q) == IF Wide(q) THEN 80 ELSE 55

AuthorText(q, r) == IF q.email THEN r.n \o " <" \o r.e \o ">" ELSE r.n
AuthorCol(q) == IF IsDiffMode(q.mode) THEN ColWidth(q) - 49 ELSE ColWidth(q) - 22

Rule(q) == Rep("─", ColWidth(q) - 2)
TopLine(q) == "┌" \o Rule(q) \o "┐"
MidLine(q) == "├" \o Rule(q) \o "┤"
EndLine(q) == "└" \o Rule(q) \o "┘"
HeadLine(q) ==
    LET w == AuthorCol(q)
        edit == IF q.mode = "first" THEN "First Edit" ELSE "Last Edit"
    IN "│" \o PadR("Author", w) \o " " \o PadR(edit, 11) \o " " \o PadL("Commits", 7)
       \o (IF IsDiffMode(q.mode) THEN " " \o PadL("Files", 7) \o "  " \o PadL("Lines (+/-)", 17)
           ELSE "")
       \o "│"

\* Texts acceptable for the line of author row r
RowLines(q, cw, now, r) ==
    LET w == AuthorCol(q)
        author == Fill(cw, Abbrev(cw, AuthorText(q, r), w), w)
        t == RelativeTime(now, IF q.mode = "first" THEN r.first ELSE r.last)
        lead == "│" \o author \o " " \o PadR(t, 11) \o " "
    IN IF ~IsDiffMode(q.mode)
       THEN {lead \o PadL(c, 7) \o "│" : c \in NumberTexts(r.commits)}
       ELSE {lead \o PadL(c, 7) \o " " \o PadL(f, 7) \o "  " \o PadL(a, 7) \o " / "
                  \o PadL(d, 7) \o "│" :
             c \in NumberTexts(r.commits), f \in NumberTexts(r.files),
             a \in NumberTexts(r.added), d \in NumberTexts(r.removed)}

MoreLines(q, left) ==
    {"│" \o PadR("..." \o s \o " more...", ColWidth(q) - 2) \o "│" : s \in NumberTexts(left)}

\* How many of n rows are shown
Shown(q, n) == IF q.n > 0 /\ q.n < n THEN q.n ELSE n

\* obs is a possible first part of a ranking of rows: position by position a
\* row of the right tie group, none used twice.  Texts(r) are the acceptable
\* renderings of row r.
RankOK(mode, ranked, obs, Texts(_)) ==
    LET n == Len(ranked)
        \* tie group of position j
        same(i, j) == ~Before(mode, ranked[i], ranked[j]) /\ ~Before(mode, ranked[j], ranked[i])
        texts == TLCEval([i \in 1..n |-> Texts(ranked[i])])
        place(acc, j) ==
            IF ~acc.ok THEN acc
            ELSE LET C == {i \in 1..n : i \notin acc.used /\ same(i, j) /\ obs[j] \in texts[i]}
                 IN IF C = {} THEN [acc EXCEPT !.ok = FALSE]
                    ELSE [acc EXCEPT !.used = @ \cup {CHOOSE i \in C : TRUE}]
    IN Len(obs) <= n
       /\ FoldLeft(place, [ok |-> TRUE, used |-> {}], [j \in 1..Len(obs) |-> j]).ok

\* Clauses the CSV output (header, rows of strings) breaks
CsvFaults(c, q, z, out) ==
    LET R == TLCEval(Authors(c, c.cnt, AnyChange))
        n == Cardinality(R)
        rows == out.rows
        nshow == Shown(q, n)
        kcol == IF q.email THEN 2 ELSE 1
        keys == [j \in DOMAIN rows |-> rows[j][kcol]]
        exp(k) == CsvRow(q, z, CHOOSE r \in R : r.key = k)
        cols == CsvHeader(q)
        shape == out.header = cols /\ \A j \in DOMAIN rows : Len(rows[j]) = Len(cols)
    IN IF ~shape THEN {"csv-shape"}
       ELSE (IF Len(rows) # nshow THEN {"row-count"} ELSE {})
            \cup (IF Cardinality(SeqSet(keys)) # Len(rows) THEN {"row-twice"} ELSE {})
            \cup (IF \E j \in DOMAIN rows : ~\E r \in R : r.key = keys[j]
                  THEN {"row-unknown"} ELSE {})
            \cup (IF nshow = n /\ \E r \in R : r.key \notin SeqSet(keys)
                  THEN {"row-missing"} ELSE {})
            \cup UNION {LET e == exp(keys[j])
                        IN {"col-" \o cols[k] : k \in {x \in DOMAIN cols : e[x] # rows[j][x]}} :
                        j \in {x \in DOMAIN rows : \E r \in R : r.key = keys[x]}}
            \cup (IF RankOK(q.mode, Ranked(q.mode, R), keys, LAMBDA r : {r.key})
                  THEN {} ELSE {"order"})

\* Clauses the human output (lines, their display widths) breaks when the
\* rows it should show are R
HumanFaults(R, q, cw, now, lines, widths) ==
    LET n == Cardinality(R)
        nshow == Shown(q, n)
        more == nshow < n
        L == Len(lines)
        body == [j \in 1..nshow |-> lines[j + 3]]
        ranked == Ranked(q.mode, R)
    IN IF n = 0 THEN (IF L = 0 THEN {} ELSE {"table-not-empty"})
       ELSE (IF \E j \in DOMAIN widths : widths[j] # ColWidth(q) THEN {"width"} ELSE {})
            \cup (IF L # nshow + (IF more THEN 5 ELSE 4) THEN {"row-count"}
                  ELSE (IF lines[1] # TopLine(q) \/ lines[2] # HeadLine(q) \/ lines[3] # MidLine(q)
                           \/ lines[L] # EndLine(q) THEN {"frame"} ELSE {})
                       \cup (IF more /\ lines[L - 1] \notin MoreLines(q, n - nshow)
                             THEN {"more"} ELSE {})
                       \cup (IF RankOK(q.mode, ranked, body, LAMBDA r : RowLines(q, cw, now, r))
                             THEN {}
                             \* rows that are right but out of place, or rows that are wrong
                             ELSE IF \A j \in DOMAIN body :
                                        \E i \in 1..n : body[j] \in RowLines(q, cw, now, ranked[i])
                             THEN {"order"} ELSE {"row-text"}))
=============================================================================
