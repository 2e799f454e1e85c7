------------------------------ MODULE HistView ----------------------------
(* `git who hist`: a gapless timeline.                                       *)
EXTENDS Tally, Render

BarWidth == 36

\* Row size for a timeline from instant a to instant b
Resolution(a, b) ==
    IF b - a > 5 * 365 * Day THEN "year"
    ELSE IF b - a > 60 * Day THEN "month" ELSE "day"

\* Rows are numbered: day number, 12 * year + month - 1, or year
RowOfDay(res, n) ==
    LET c == Civil(n)
    IN IF res = "day" THEN n ELSE IF res = "month" THEN 12 * c.y + c.m - 1 ELSE c.y
RowExists(res, z, k) == res # "day" \/ DayExists(z, k)
RowLabel(res, k) ==
    IF res = "day" THEN DateLabel(k)
    ELSE IF res = "month" THEN MonthNames[(k % 12) + 1] \o " " \o Zero(k \div 12, 4)
    ELSE Zero(k, 4)

\* The timeline ends now if the query has neither revisions nor --until
EndsNow(q) == Len(q.revs) = 0 /\ q.until = -1

Timeline(c, q, z, now) ==
    LET days == TLCEval([i \in c.sel |-> LocalDay(z, c.cs[i].at)])
        D == {days[i] : i \in c.sel}
        d0 == MinOf(D)
        d1 == IF EndsNow(q) THEN LocalDay(z, now) ELSE MaxOf(D)
        t1 == IF EndsNow(q) THEN now ELSE StartOfDay(z, d1)
        res == Resolution(StartOfDay(z, d0), t1)
        k0 == RowOfDay(res, d0)
        n == RowOfDay(res, d1) - k0 + 1
        rows == SelectSeq([k \in 1..n |-> k0 + k - 1], LAMBDA k : RowExists(res, z, k))
    IN [res |-> res, rows |-> rows, days |-> days]

\* Value of a metric in a bucket (over the authors' rows R of the bucket)
BucketTotal(c, mode, C) ==
    IF C = {} THEN 0
    ELSE LET t == Totals(c, C, AnyChange) IN Metric(mode, t)

\* rounded-up share of the bar: v * 36 / max, in two steps to stay small
Ceil(v, max) ==
    LET a == v * 6
    IN 6 * (a \div max) + (((a % max) * 6 + max - 1) \div max)

HistMetric(mode, r) ==
    IF mode = "lines"
    THEN {"(" \o a \o " / " \o d \o ")" : a \in NumberTexts(r.added), d \in NumberTexts(r.removed)}
    ELSE {"(" \o s \o ")" : s \in NumberTexts(Metric(mode, r))}

\* Clauses broken by the output lines (each [label, bar, tail] after
\* splitting: see HistParse) for this context
HistFaults(c, q, z, cw, now, lines) ==
    IF c.sel = {} THEN (IF Len(lines) = 0 THEN {} ELSE {"not-empty"})
    ELSE
    LET T == TLCEval(Timeline(c, q, z, now))
        n == Len(T.rows)
        in(k) == {i \in c.cnt : RowOfDay(T.res, T.days[i]) = T.rows[k]}
        B == TLCEval([k \in 1..n |-> in(k)])
        R == TLCEval([k \in 1..n |-> Authors(c, B[k], AnyChange)])
        tot == TLCEval([k \in 1..n |-> BucketTotal(c, q.mode, B[k])])
        max == MaxOf({BarWidth} \cup {tot[k] : k \in 1..n})
        best(k) == {a \in R[k] : \A b \in R[k] : Metric(q.mode, a) >= Metric(q.mode, b)}
        label(k) == RowLabel(T.res, T.rows[k])
        bar(k, v) == LET p == Ceil(v, max) IN Rep("#", p) \o Rep("-", Ceil(tot[k], max) - p)
        who(a) == Abbrev(cw, IF q.email THEN "<" \o a.e \o ">" ELSE a.n, 25)
        head(k) == label(k) \o " ┤ "
        expect(k) ==
            IF \A a \in R[k] : Metric(q.mode, a) = 0 THEN {head(k)}
            ELSE UNION {{head(k) \o PadR(bar(k, Metric(q.mode, a)), BarWidth) \o "  "
                         \o who(a) \o " " \o m : m \in HistMetric(q.mode, a)} : a \in best(k)}
        lab(s) == LET i == IndexFrom(s, "┤", 1) IN IF i = 0 THEN s ELSE TakeN(s, i - 1)
        hasBar(s) == HasSub(s, "#") \/ HasSub(s, "-  ")
        obsBar(s) == LET i == IndexFrom(s, "┤", 1) IN TakeN(DropN(s, i + 1), BarWidth)
        expBars(k) == {PadR(bar(k, Metric(q.mode, a)), BarWidth) : a \in best(k)}
    IN IF [k \in DOMAIN lines |-> lab(lines[k])] # [k \in 1..n |-> label(k) \o " "]
       THEN {"timeline"}
       ELSE LET wrong == {k \in 1..n : lines[k] \notin expect(k)}
            IN (IF wrong = {} THEN {} ELSE {"hist-row"})
               \cup (IF \E k \in wrong : (lines[k] = head(k)) # (expect(k) = {head(k)})
                     THEN {"hist-blank"} ELSE {})
               \cup (IF \E k \in wrong : lines[k] # head(k) /\ expect(k) # {head(k)}
                                         /\ obsBar(lines[k]) \notin expBars(k)
                     THEN {"hist-bar"} ELSE {})
=============================================================================
