------------------------------- MODULE Civil ------------------------------
(* Civil time.  A zone is a sequence of [at, off] pieces: from the instant   *)
(* `at` on (seconds since 1970) local time is UTC plus `off` seconds.  The   *)
(* first piece starts before every instant of interest.                      *)
EXTENDS Strs

Day == 86400
FarFuture == 2147480000

Offset(z, t) ==
    LET S == {i \in DOMAIN z : z[i].at <= t}
    IN IF S = {} THEN z[1].off ELSE z[MaxOf(S)].off

\* Day number (days since 1970-01-01) of the local date at instant t
LocalDay(z, t) == (t + Offset(z, t)) \div Day
LocalSecond(z, t) == (t + Offset(z, t)) % Day

\* Day number -> [y, m, d]  (proleptic Gregorian, days >= 0)
Civil(n) ==
    LET zz  == n + 719468
        era == zz \div 146097
        doe == zz - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp  == (5 * doy + 2) \div 153
        d   == doy - (153 * mp + 2) \div 5 + 1
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]

\* [y, m, d] -> day number
DayNumber(y, m, d) ==
    LET yy  == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp  == IF m > 2 THEN m - 3 ELSE m + 9
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 719468

\* Pieces of the zone in which some instant has local date n, with the first
\* such instant of each
DayStarts(z, n) ==
    LET endOf(i) == IF i = Len(z) THEN FarFuture ELSE z[i + 1].at
        from(i) == IF i = 1 THEN n * Day - z[i].off
                   ELSE Max2(z[i].at, n * Day - z[i].off)
        to(i) == Min2(endOf(i), (n + 1) * Day - z[i].off)
    IN {from(i) : i \in {j \in DOMAIN z : from(j) < to(j)}}

DayExists(z, n) == DayStarts(z, n) # {}
StartOfDay(z, n) == MinOf(DayStarts(z, n))

MonthNames == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun",
                "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>

DateLabel(n) == LET c == Civil(n) IN Zero(c.y, 4) \o "-" \o Zero(c.m, 2) \o "-" \o Zero(c.d, 2)

Rfc3339(z, t) ==
    LET off == Offset(z, t)
        s == LocalSecond(z, t)
        a == IF off < 0 THEN -off ELSE off
    IN DateLabel(LocalDay(z, t)) \o "T" \o Zero(s \div 3600, 2) \o ":"
       \o Zero((s \div 60) % 60, 2) \o ":" \o Zero(s % 60, 2)
       \o (IF off = 0 THEN "Z"
           ELSE (IF off < 0 THEN "-" ELSE "+") \o Zero(a \div 3600, 2) \o ":"
                \o Zero((a \div 60) % 60, 2))
=============================================================================
