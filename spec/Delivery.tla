------------------------------ MODULE Delivery ----------------------------
(* What is said of a run whose output goes where not all of it may fit.      *)
EXTENDS Strs

\* ---- a report of `full` was due, `got` arrived where only `free` bytes could ----
StrainFaults(full, got, free, rc, said, hang) ==
    IF hang THEN {"hang"}
    ELSE (IF free >= Len(full)
          THEN (IF rc # 0 THEN {"failed"} ELSE {}) \cup (IF got # full THEN {"partial-report"} ELSE {})
          ELSE (IF rc = 0 THEN {"lost-output"} ELSE {})
               \cup (IF rc # 0 /\ ~said THEN {"no-reason"} ELSE {}))
         \cup (IF Len(got) <= Len(full) /\ got = SubSeq(full, 1, Len(got)) THEN {} ELSE {"garbled"})
=============================================================================
