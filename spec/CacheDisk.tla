----------------------------- MODULE CacheDisk ----------------------------
(* What the cache file goes through: runs that start and end at any time,    *)
(* several at once, any of them killed between two file operations or in the *)
(* middle of a write.                                                        *)
(*                                                                           *)
(* A run uncompresses G (if there) over P, reads P, appends what it had git  *)
(* tell it, compresses P over G and removes P.  Neither file is truncated    *)
(* when opened and nothing locks them.  When reading fails the directory is  *)
(* removed and the run goes on without.  Files are inodes of cells, so that  *)
(* a removed file that is still open stays writable:                         *)
(*   P   header [k |-> "h", f], data [k |-> "d", f] for a frame f; torn      *)
(*       [k |-> "t", f] if a write was cut off                               *)
(*   G   packed cells [k |-> "z", f |-> cell] and a checksum                 *)
(*       [k |-> "end", f |-> all cells]                                      *)
(* A frame is <<run, commits>>: two runs may store the same commits.         *)
EXTENDS Strs

CONSTANTS Procs,        \* processes: each is started Runs times
          Runs, Commits, MaxCrash, MaxFlip,
          Bug           \* a way to get it wrong, "none": as designed

VARIABLES name,         \* "P", "G" -> inode, 0: no such file
          data,         \* inode -> cells
          pc, runs, want, found, fetched, fd, pos, src, sum, dirty, dubious,
          crashes, flips, quiet, seen
vars == <<name, data, pc, runs, want, found, fetched, fd, pos, src, sum, dirty, dubious, crashes, flips, quiet, seen>>

Init ==
    /\ name = [n \in {"P", "G"} |-> 0] /\ data = <<>>
    /\ pc = [p \in Procs |-> "idle"] /\ runs = [p \in Procs |-> 0]
    /\ want = [p \in Procs |-> {}] /\ found = [p \in Procs |-> <<>>]
    /\ fetched = [p \in Procs |-> {}]
    /\ fd = [p \in Procs |-> 0] /\ pos = [p \in Procs |-> 1] /\ src = [p \in Procs |-> 0]
    /\ sum = [p \in Procs |-> <<>>]     \* what went into the checksum so far
    /\ dirty = [p \in Procs |-> FALSE] /\ dubious = FALSE
    /\ crashes = 0 /\ flips = 0
    /\ quiet = [p \in Procs |-> FALSE] /\ seen = {}

Frame(p) == <<<<p, runs[p]>>, fetched[p]>>
Goto(p, s) == pc' = [pc EXCEPT ![p] = s]
Alone(p) == \A o \in Procs \ {p} : pc[o] = "idle"

\* A run that starts is undisturbed until somebody else starts
Start(p, S) ==
    /\ pc[p] = "idle" /\ runs[p] < Runs
    /\ Goto(p, "openG") /\ runs' = [runs EXCEPT ![p] = @ + 1]
    /\ want' = [want EXCEPT ![p] = S]
    /\ found' = [found EXCEPT ![p] = <<>>] /\ fetched' = [fetched EXCEPT ![p] = {}]
    /\ dirty' = [dirty EXCEPT ![p] = FALSE] /\ sum' = [sum EXCEPT ![p] = <<>>]
    /\ quiet' = [o \in Procs |-> IF o = p THEN Alone(p) ELSE FALSE]
    /\ UNCHANGED <<name, data, fd, pos, src, dubious, crashes, flips, seen>>

\* Opens n for writing: the inode, made if need be
Inode(n) == IF name[n] = 0 THEN Len(data) + 1 ELSE name[n]
Made(n) == IF name[n] = 0 THEN Append(data, <<>>) ELSE data
Put(cells, k, c) == IF k <= Len(cells) THEN [cells EXCEPT ![k] = c] ELSE Append(cells, c)

OpenG(p) ==
    /\ pc[p] = "openG"
    /\ IF name["G"] = 0 THEN Goto(p, "openP") /\ UNCHANGED <<name, data, fd, pos, src>>
       ELSE /\ src' = [src EXCEPT ![p] = name["G"]] /\ pos' = [pos EXCEPT ![p] = 1]
            /\ Goto(p, "create") /\ UNCHANGED <<name, data, fd>>
    \* what a stopped run left in P may be more than G has
    /\ dirty' = [dirty EXCEPT ![p] = name["P"] # 0 /\ Bug # "leftover dropped"]
    /\ UNCHANGED <<runs, want, found, fetched, sum, dubious, crashes, flips, quiet, seen>>
Create(p) ==
    /\ pc[p] = "create"
    /\ fd' = [fd EXCEPT ![p] = Inode("P")] /\ name' = [name EXCEPT !["P"] = Inode("P")]
    /\ data' = IF Bug = "truncates P" /\ name["P"] # 0 THEN [data EXCEPT ![name["P"]] = <<>>] ELSE Made("P")
    /\ Goto(p, "unpack")
    /\ UNCHANGED <<runs, want, found, fetched, pos, src, dirty, sum, dubious, crashes, flips, quiet, seen>>
Unpack(p) ==
    /\ pc[p] = "unpack"
    /\ LET g == data[src[p]]
           k == pos[p]
       IN IF k > Len(g) THEN Goto(p, IF Bug = "cut is the end" THEN "openP" ELSE "clear") /\ UNCHANGED <<data, pos, sum>>
          ELSE IF g[k].k = "z"
          THEN /\ data' = [data EXCEPT ![fd[p]] = Put(@, k, g[k].f)]
               /\ pos' = [pos EXCEPT ![p] = k + 1] /\ UNCHANGED pc
               /\ sum' = [sum EXCEPT ![p] = Append(@, g[k].f)]
          ELSE IF g[k].k = "end" /\ (g[k].f = sum[p] \/ Bug = "no checksum")
                  /\ (k = Len(g) \/ Bug = "rest ignored")
          THEN Goto(p, "openP") /\ UNCHANGED <<data, pos, sum>>
          ELSE Goto(p, "clear") /\ UNCHANGED <<data, pos, sum>>
    /\ UNCHANGED <<name, runs, want, found, fetched, fd, src, dirty, dubious, crashes, flips, quiet, seen>>

\* Reads P frame by frame
OpenP(p) ==
    /\ pc[p] = "openP"
    /\ IF name["P"] = 0 THEN Goto(p, "fetch") /\ UNCHANGED <<src, pos>>
       ELSE src' = [src EXCEPT ![p] = name["P"]] /\ pos' = [pos EXCEPT ![p] = 1] /\ Goto(p, "read")
    /\ UNCHANGED <<name, data, runs, want, found, fetched, fd, dirty, sum, dubious, crashes, flips, quiet, seen>>
Read(p) ==
    /\ pc[p] = "read"
    /\ LET c == data[src[p]]
           k == pos[p]
           hit == c[k].f[2] \cap want[p]
           \* a header and other data than it announces: decoding is bound to
           \* fail, or so we hope
           mixed == k < Len(c) /\ ~(c[k].k = "h" /\ c[k + 1].k = "d" /\ c[k + 1].f = c[k].f)
           \* a write cut off at the very end is a matter of lengths
           torn == k + 1 = Len(c) /\ c[k].k = "h" /\ c[k + 1].k = "t"
       IN IF k > Len(c) THEN Goto(p, "fetch") /\ UNCHANGED <<found, pos, dubious>>
          ELSE IF k = Len(c) \/ mixed
          THEN Goto(p, "clear") /\ dubious' = (dubious \/ (mixed /\ ~torn)) /\ UNCHANGED <<found, pos>>
          ELSE IF hit \cap SeqSet(found[p]) # {} /\ Bug # "duplicates accepted"
          THEN Goto(p, "clear") /\ UNCHANGED <<found, pos, dubious>>
          ELSE /\ found' = [found EXCEPT ![p] = @ \o (IF c[k + 1].v THEN SetToSeq(hit) ELSE <<0>>)]
               /\ pos' = [pos EXCEPT ![p] = k + 2] /\ UNCHANGED <<pc, dubious>>
    /\ UNCHANGED <<name, data, runs, want, fetched, fd, src, dirty, sum, crashes, flips, quiet, seen>>
Clear(p) ==
    /\ pc[p] = "clear"
    /\ name' = IF Bug = "damage stays" THEN name ELSE [n \in {"P", "G"} |-> 0]
    /\ found' = IF Bug = "half a reading is used" THEN found ELSE [found EXCEPT ![p] = <<>>]
    /\ IF Bug = "half a reading is used"
       THEN fetched' = [fetched EXCEPT ![p] = want[p]] /\ Goto(p, "add")
       ELSE Goto(p, "fetch") /\ UNCHANGED fetched
    /\ UNCHANGED <<data, runs, want, fd, pos, src, dirty, sum, dubious, crashes, flips, quiet, seen>>

\* git tells the rest
Fetch(p) ==
    /\ pc[p] = "fetch"
    /\ LET rest == want[p] \ SeqSet(found[p])
       IN /\ fetched' = [fetched EXCEPT ![p] = rest]
          /\ Goto(p, IF rest = {} THEN "close" ELSE "add")
    /\ UNCHANGED <<name, data, runs, want, found, fd, pos, src, dirty, sum, dubious, crashes, flips, quiet, seen>>
Add(p) ==       \* opened for appending by name
    /\ pc[p] = "add"
    /\ fd' = [fd EXCEPT ![p] = Inode("P")] /\ name' = [name EXCEPT !["P"] = Inode("P")]
    /\ data' = Made("P") /\ dirty' = [dirty EXCEPT ![p] = TRUE]
    /\ Goto(p, "head")
    /\ UNCHANGED <<runs, want, found, fetched, pos, src, sum, dubious, crashes, flips, quiet, seen>>
Write(p, at, k, to) ==
    /\ pc[p] = at
    /\ data' = [data EXCEPT ![fd[p]] = Append(@, [k |-> k, f |-> Frame(p), v |-> TRUE])]
    /\ Goto(p, to)
    /\ UNCHANGED <<name, runs, want, found, fetched, fd, pos, src, dirty, sum, dubious, crashes, flips, quiet, seen>>

\* ---- closing ----
Close(p) ==
    /\ pc[p] = "close"
    /\ IF dirty[p] /\ name["P"] # 0
       THEN /\ src' = [src EXCEPT ![p] = name["P"]]
            /\ Goto(p, "createG")
       ELSE Goto(p, "remove") /\ UNCHANGED src
    /\ UNCHANGED <<name, data, runs, want, found, fetched, fd, pos, dirty, sum, dubious, crashes, flips, quiet, seen>>
CreateG(p) ==
    /\ pc[p] = "createG"
    /\ fd' = [fd EXCEPT ![p] = Inode("G")] /\ name' = [name EXCEPT !["G"] = Inode("G")]
    /\ data' = Made("G") /\ pos' = [pos EXCEPT ![p] = 1] /\ sum' = [sum EXCEPT ![p] = <<>>]
    /\ Goto(p, "pack")
    /\ UNCHANGED <<runs, want, found, fetched, src, dirty, dubious, crashes, flips, quiet, seen>>
Pack(p) ==
    /\ pc[p] = "pack"
    /\ LET c == data[src[p]]
           k == pos[p]
           g == data[fd[p]]
       IN IF k <= Len(c)
          THEN /\ data' = [data EXCEPT ![fd[p]] = Put(g, k, [k |-> "z", f |-> c[k], v |-> TRUE])]
               /\ pos' = [pos EXCEPT ![p] = k + 1] /\ UNCHANGED pc
               /\ sum' = [sum EXCEPT ![p] = Append(@, c[k])]
          \* the checksum is that of what this run has packed
          ELSE /\ data' = [data EXCEPT ![fd[p]] = Put(g, k, [k |-> "end", f |-> sum[p], v |-> TRUE])]
               /\ Goto(p, "remove") /\ UNCHANGED <<pos, sum>>
    /\ UNCHANGED <<name, runs, want, found, fetched, fd, src, dirty, dubious, crashes, flips, quiet, seen>>
Unlink(p) ==
    /\ pc[p] = "remove"
    /\ name' = [name EXCEPT !["P"] = 0] /\ Goto(p, "done")
    /\ UNCHANGED <<data, runs, want, found, fetched, fd, pos, src, dirty, sum, dubious, crashes, flips, quiet, seen>>
\* seen: what an undisturbed run leaves behind for the next
Done(p) ==
    /\ pc[p] = "done" /\ Goto(p, "idle")
    /\ seen' = IF quiet[p] THEN want[p] ELSE {}
    /\ UNCHANGED <<name, data, runs, want, found, fetched, fd, pos, src, dirty, sum, dubious, crashes, flips, quiet>>

\* Killed between two operations, or with half a write done
Crash(p) ==
    /\ pc[p] # "idle" /\ crashes < MaxCrash
    /\ crashes' = crashes + 1 /\ Goto(p, "idle") /\ seen' = {}
    /\ \/ UNCHANGED data
       \/ /\ pc[p] \in {"head", "data"}
          /\ data' = [data EXCEPT ![fd[p]] = Append(@, [k |-> "t", f |-> Frame(p), v |-> TRUE])]
       \/ /\ pc[p] = "pack"
          /\ data' = [data EXCEPT ![fd[p]] = Put(@, pos[p], [k |-> "t", f |-> Frame(p), v |-> TRUE])]
    /\ UNCHANGED <<name, runs, want, found, fetched, fd, pos, src, sum, dirty, dubious, flips, quiet>>

\* A frame in the compressed file changes without becoming unreadable
Flip ==
    /\ flips < MaxFlip /\ flips' = flips + 1
    /\ name["G"] # 0 /\ seen' = {} /\ quiet' = [p \in Procs |-> FALSE]
    /\ \E i \in DOMAIN data[name["G"]] :
         /\ data[name["G"]][i].k = "z" /\ data[name["G"]][i].f.k = "d"
         /\ data' = [data EXCEPT ![name["G"]][i].f.v = FALSE]
    /\ UNCHANGED <<name, pc, runs, want, found, fetched, fd, pos, src, sum, dirty, dubious, crashes>>

Step(p) == \/ OpenG(p) \/ Create(p) \/ Unpack(p) \/ OpenP(p) \/ Read(p) \/ Clear(p) \/ Fetch(p)
           \/ Add(p) \/ Write(p, "head", "h", "data") \/ Write(p, "data", "d", "close")
           \/ Close(p) \/ CreateG(p) \/ Pack(p) \/ Unlink(p) \/ Done(p) \/ Crash(p)
Next == Flip \/ \E p \in Procs : Step(p) \/ \E S \in SUBSET Commits \ {{}} : Start(p, S)
Spec == Init /\ [][Next]_vars

\* ---- what must hold ----
\* Every run reports what it was asked for, nothing else, nothing twice
Right == \A p \in Procs : pc[p] \in {"close", "createG", "pack", "remove", "done"} =>
            LET all == found[p] \o SetToSeq(fetched[p])
            IN SeqSet(all) = want[p] /\ Len(all) = Cardinality(want[p])
\* A run that nobody disturbed, after another such, finds everything it left
Cached == \A p \in Procs : quiet[p] /\ pc[p] = "close" /\ seen # {} => fetched[p] \cap seen = {}
\* and leaves one file
Tidy == \A p \in Procs : quiet[p] /\ pc[p] = "done" => name["P"] = 0 /\ name["G"] # 0
\* An undisturbed run leaves a sound file, whatever it has found
\* (to see which histories rely on decoding to notice)
NotDubious == ~dubious
Valid(g) == LET n == Len(g) IN
    /\ n >= 1 /\ g[n].k = "end" /\ \A i \in 1..(n - 1) : g[i].k = "z"
    /\ g[n].f = [i \in 1..(n - 1) |-> g[i].f]
    /\ \A i \in 1..(n - 1) : g[i].f.k = (IF i % 2 = 1 THEN "h" ELSE "d")
Sound == \A p \in Procs : quiet[p] /\ pc[p] = "done" => Valid(data[name["G"]])
=============================================================================
