------------------------------ MODULE Relations ---------------------------
(* What several reports together must satisfy.  A kept report k is           *)
(* [q, out] of a run that succeeded.                                         *)
EXTENDS GitWho

Digit == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
            CHOOSE n \in 0..9 : ToString(n) = c]
Num(s) == FoldLeft(LAMBDA acc, i : acc * 10 + Digit[Ch(s, i)], 0, [i \in 1..Len(s) |-> i])
\* (numbers of ten digits are beyond what these reports may say)
IsNum(s) == Len(s) \in 1..9 /\ \A i \in 1..Len(s) : Ch(s, i) \in DOMAIN Digit

\* Column of a CSV report by its heading (0 if there is none)
Col(out, name) ==
    LET S == {i \in DOMAIN out.header : out.header[i] = name}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

\* What a row says under that heading
Cell(out, row, name) ==
    LET c == Col(out, name) IN IF c \in DOMAIN row THEN row[c] ELSE ""
CellNum(out, row, name) ==
    LET s == Cell(out, row, name) IN IF IsNum(s) THEN Num(s) ELSE 0

SumCol(out, name) ==
    FoldLeft(LAMBDA acc, row : acc + CellNum(out, row, name), 0, out.rows)

PartsSum(outs, name) ==
    FoldLeft(LAMBDA acc, o : acc + SumCol(o, name), 0, outs)

\* The parts add up to the whole
SumFaults(whole, parts, cols) ==
    {"sum-" \o cols[i] : i \in {j \in DOMAIN cols : SumCol(whole, cols[j]) # PartsSum(parts, cols[j])}}

\* Columns of all bars of a histogram.  With at most 36 things in all, every
\* column is one commit or line.
BarLen(line) ==
    LET i == IndexFrom(line, "┤", 1)
        bar == SubSeq(line, i + 2, Min2(Len(line), i + 37))
    IN Cardinality({k \in 1..Len(bar) : Ch(bar, k) \in {"#", "-"}})
HistSum(lines) == FoldLeft(LAMBDA acc, x : acc + BarLen(x), 0, lines)

TableSum(out, mode) ==
    IF mode = "lines" THEN SumCol(out, "lines added") + SumCol(out, "lines removed")
    ELSE SumCol(out, mode)

HistSumFaults(timeline, table, mode) ==
    LET t == TableSum(table, mode)
    IN IF t <= 36 /\ HistSum(timeline.lines) # t THEN {"hist-sum"} ELSE {}

\* The tree's first line against the table's first row (both for the same
\* selection of commits under the top directory, numbers below 1000)
RootValue(out, row, mode) ==
    LET at(name) == Cell(out, row, name)
    IN CASE mode = "commits" -> "(" \o at("commits") \o ")"
         [] mode = "files" -> "(" \o at("files") \o ")"
         [] mode = "lines" -> "(" \o at("lines added") \o " / " \o at("lines removed") \o ")"
         [] OTHER -> ""
Leads(out, mode) ==
    Len(out.rows) = 1 \/
    LET v(j) == CASE mode = "commits" -> CellNum(out, out.rows[j], "commits")
                  [] mode = "files" -> CellNum(out, out.rows[j], "files")
                  [] mode = "lines" -> CellNum(out, out.rows[j], "lines added")
                                       + CellNum(out, out.rows[j], "lines removed")
                  [] OTHER -> 0
        t(j) == Cell(out, out.rows[j], IF mode = "first" THEN "first commit time" ELSE "last commit time")
    IN v(1) # v(2) \/ t(1) # t(2)
RootFaults(tree, table, q) ==
    IF Len(tree.lines) = 0 \/ Len(table.rows) = 0 THEN {}
    ELSE LET row == table.rows[1]
             who == IF q.email THEN "<" \o Cell(table, row, "email") \o ">" ELSE Cell(table, row, "name")
             val == RootValue(table, row, q.mode)
             line == tree.lines[1]
         IN (IF val # "" /\ Leads(table, q.mode) /\ ~EndsWith(line, "." \o who \o " " \o val) THEN {"root-value"} ELSE {})
            \cup (IF Leads(table, q.mode) /\ ~HasSub(line, "." \o who \o " (") THEN {"root-winner"} ELSE {})
=============================================================================
