------------------------------- MODULE Strs -------------------------------
(* String helpers.  TLC's Len, SubSeq and \o work on strings; strings cannot *)
(* be compared with <, so orders on strings are supplied as rank tables.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Ch(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasSub(s, p) ==
    \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
DropN(s, n) == SubSeq(s, n + 1, Len(s))
TakeN(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))

\* Index of the first occurrence of character c in s at or after i, or 0.
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) ==
    IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE IndexFrom(s, c, i + 1)

RECURSIVE SplitOn(_, _)
SplitOn(s, c) ==
    LET i == IndexFrom(s, c, 1)
    IN IF i = 0 THEN <<s>> ELSE <<TakeN(s, i - 1)>> \o SplitOn(DropN(s, i), c)

RECURSIVE JoinWith(_, _)
JoinWith(parts, c) ==
    IF Len(parts) = 0 THEN ""
    ELSE IF Len(parts) = 1 THEN parts[1]
    ELSE parts[1] \o c \o JoinWith(Tail(parts), c)

RECURSIVE Rep(_, _)
Rep(c, n) ==
    IF n <= 0 THEN ""
    ELSE IF n = 1 THEN c
    ELSE LET h == Rep(c, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o c

PadL(s, n) == Rep(" ", n - Len(s)) \o s          \* %ns
PadR(s, n) == s \o Rep(" ", n - Len(s))          \* %-ns
Zero(n, w) == LET s == ToString(n) IN Rep("0", w - Len(s)) \o s

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
SumSeq(f) == FoldLeft(LAMBDA acc, x : acc + x, 0, f)
SeqSet(s) == {s[i] : i \in DOMAIN s}
SetSeq(S) == SetToSeq(S)
=============================================================================
