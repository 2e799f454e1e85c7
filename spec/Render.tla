------------------------------ MODULE Render ------------------------------
(* How numbers, times and names are written for humans.                      *)
EXTENDS Civil

\* Acceptable renderings of a number (a set: how an exact half is rounded is
\* not part of the contract).
NumberTexts(n) ==
    IF n < 1000 THEN {ToString(n)}
    ELSE IF n < 1000000 THEN {ToString(n \div 1000) \o "," \o Zero(n % 1000, 3)}
    ELSE IF n > 100000000 THEN {">99m"}
    ELSE LET tenths(k) == ToString(k \div 10) \o "." \o ToString(k % 10) \o "m"
             near == {(n + d) \div 100000 : d \in {50000 - 12, 50000 + 12}}
         IN {tenths(k) : k \in near}

RelativeTime(now, t) ==
    LET dur == now - t
        plural(k, one, many) == IF k > 1 THEN ToString(k) \o many ELSE ToString(k) \o one
    IN IF dur < 3600 THEN ToString(dur \div 60) \o " min. ago"
       ELSE IF dur < Day THEN plural(dur \div 3600, " hour ago", " hr. ago")
       ELSE IF dur < 7 * Day THEN plural(dur \div Day, " day ago", " days ago")
       ELSE IF dur < 30 * Day THEN plural(dur \div (7 * Day), " week ago", " weeks ago")
       ELSE IF dur < 365 * Day THEN plural(dur \div (30 * Day), " month ago", " mon. ago")
       ELSE IF dur \div (365 * Day) > 99 THEN ">99 yr. ago"
       ELSE plural(dur \div (365 * Day), " year ago", " yr. ago")

\* Display widths: cw gives them for the characters that are not one column
ChW(cw, c) == IF c \in DOMAIN cw THEN cw[c] ELSE 1
Width(cw, s) == SumSeq([i \in 1..Len(s) |-> ChW(cw, Ch(s, i))])

\* Longest prefix of at most w columns (a character of no width belongs to
\* the one before it)
RECURSIVE PrefixLen(_, _, _, _)
PrefixLen(cw, s, i, w) ==
    IF i > Len(s) \/ ChW(cw, Ch(s, i)) > w THEN i - 1
    ELSE PrefixLen(cw, s, i + 1, w - ChW(cw, Ch(s, i)))

Abbrev(cw, s, max) ==
    IF Width(cw, s) <= max THEN s
    ELSE TakeN(s, PrefixLen(cw, s, 1, max - 1)) \o "…"

Fill(cw, s, w) == s \o Rep(" ", w - Width(cw, s))
=============================================================================
