------------------------------ MODULE Output ------------------------------
(* How a finished report reaches whoever reads it: in pieces, through a      *)
(* buffer, onto a device that may take only part of it, refuse the rest, and *)
(* later take more again (a full disk that somebody clears).                 *)
(*                                                                           *)
(* What counts: a run that claims success has delivered the whole report and *)
(* nothing else; what a failing run delivered is the beginning of it.        *)
EXTENDS Delivery

CONSTANTS MaxPieces, MaxPiece,  \* the report: up to so many pieces of 1..MaxPiece bytes
          Buffer,               \* bytes the buffer holds; 0: none
          MaxClear,             \* how often the device gets free again
          Bug                   \* a way to get it wrong, "none": as designed

VARIABLES pieces,   \* lengths; the bytes of the report are 1, 2, 3, ...
          k,        \* pieces handed over
          buf, out, \* bytes waiting, bytes delivered
          room,     \* bytes the device still takes
          space,    \* ... in the beginning
          failed,   \* the writer remembers an error
          clears, st
vars == <<pieces, k, buf, out, room, space, failed, clears, st>>

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Total == Sum(pieces)
Bytes(a, b) == [i \in 1..(b - a) |-> a + i]                \* bytes a+1 .. b
Piece(j) == LET a == Sum(SubSeq(pieces, 1, j - 1)) IN Bytes(a, a + pieces[j])
All == Bytes(0, Total)
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Init ==
    /\ \E n \in 0..MaxPieces : pieces \in [1..n -> 1..MaxPiece]
    /\ k = 0 /\ buf = <<>> /\ out = <<>>
    /\ room \in 0..(MaxPieces * MaxPiece)
    /\ space = room /\ failed = FALSE /\ clears = 0 /\ st = "writing"

\* The device takes what it has room for; less than everything is an error
Accepts(s) == Min2(Len(s), room)
Emit(s) == /\ out' = out \o Take(s, room)
           /\ room' = room - Accepts(s)
Broke(s) == Accepts(s) < Len(s)

\* A piece is handed over: it waits, or pushes what waits and itself out
Write ==
    /\ st = "writing" /\ k < Len(pieces)
    /\ k' = k + 1
    /\ LET s == buf \o Piece(k + 1)
       IN IF failed /\ Bug \notin {"goes on after an error", "last write counts"}
          THEN UNCHANGED <<buf, out, room, failed>>     \* nothing gets past an error
          ELSE IF Len(s) <= Buffer
          THEN buf' = s /\ UNCHANGED <<out, room, failed>>
          ELSE /\ Emit(s)
               /\ buf' = <<>>
               /\ failed' = CASE Bug = "errors of writes ignored" -> failed
                              [] Bug = "last write counts" -> Broke(s)
                              [] OTHER -> failed \/ Broke(s)
    /\ UNCHANGED <<pieces, space, clears, st>>

\* Everything was handed over: what waits goes out, and the run ends
Finish ==
    /\ st = "writing" /\ k = Len(pieces)
    /\ IF failed /\ Bug \notin {"goes on after an error", "last write counts"}
       THEN st' = "failed" /\ UNCHANGED <<buf, out, room, failed>>
       ELSE IF Bug = "not flushed" THEN st' = "ok" /\ UNCHANGED <<buf, out, room, failed>>
       ELSE /\ Emit(buf) /\ buf' = <<>>
            /\ failed' = (failed \/ Broke(buf))
            /\ st' = IF (Broke(buf) /\ Bug # "error of the flush ignored") \/ (failed /\ Bug # "last write counts")
                     THEN "failed" ELSE "ok"
    /\ UNCHANGED <<pieces, k, space, clears>>

Clear ==
    /\ st = "writing" /\ clears < MaxClear
    /\ clears' = clears + 1 /\ room' = MaxPieces * MaxPiece
    /\ UNCHANGED <<pieces, k, buf, out, space, failed, st>>

Next == Write \/ Finish \/ Clear
Spec == Init /\ [][Next]_vars /\ WF_vars(Write) /\ WF_vars(Finish)

\* ---- what has to hold ----
Beginning == out = Take(All, Len(out))
OkIsWhole == st = "ok" => out = All
RoomIsOk == clears = 0 /\ st = "failed" => Len(out) < Total
Ends == <>(st # "writing")
\* What is said of an observed run (Delivery) holds of the design
Observed == st # "writing" /\ clears = 0 => StrainFaults(All, out, space, IF st = "ok" THEN 0 ELSE 1, TRUE, FALSE) = {}
=============================================================================
