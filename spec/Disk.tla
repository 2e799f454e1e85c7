-------------------------------- MODULE Disk ------------------------------
(* What a run may leave on disk.  An observation d of one run:               *)
(*   outside  paths created, changed or removed anywhere but below git-who's *)
(*            cache directory                                                *)
(*   touched  the directories of the cache (one per repository) in which a   *)
(*            file was created, changed or removed                           *)
(*   files    what the cache holds after the run: <<directory, file, kind>>  *)
(*            with kind "gz" (compressed) or "other"                         *)
(* stores: which of these directories belongs to which repository.           *)
EXTENDS GitWho

DiskFaults(q, par, fate, rc, d, repo, stores, needs) ==
    LET touched == SeqSet(d.touched)
        mine == {f \in SeqSet(d.files) : f[1] \in touched \/
                    (repo \in DOMAIN stores /\ f[1] = stores[repo])}
        others == {stores[r] : r \in DOMAIN stores \ {repo}}
    IN (IF d.outside # <<>> THEN {"outside"} ELSE {})
       \cup (IF ~q.cache /\ (touched # {} \/ d.made) THEN {"cache-though-disabled"} ELSE {})
       \cup (IF q.cache /\ ~UsesCache(q, par) /\ touched # {} THEN {"cache-not-needed"} ELSE {})
       \cup (IF Cardinality(touched) > 1 \/ touched \cap others # {}
                \/ (touched # {} /\ repo \in DOMAIN stores /\ ~(touched \subseteq {stores[repo]}))
             THEN {"foreign-store"} ELSE {})
       \cup (IF fate = "ok" /\ rc = 0 /\ UsesCache(q, par) /\ touched # {}
                /\ \E f \in mine : f[3] # "gz"
             THEN {"leftover"} ELSE {})
       \cup (IF fate = "ok" /\ rc = 0 /\ UsesCache(q, par) /\ touched # {}
                /\ Cardinality(mine) > 1
             THEN {"several-files"} ELSE {})
       \cup (IF fate = "ok" /\ rc = 0 /\ UsesCache(q, par) /\ needs # {} /\ Cardinality(mine) = 0
             THEN {"not-cached"} ELSE {})

\* The repository's directory, once a run has used it
StoresAfter(stores, d, repo) ==
    IF Len(d.touched) = 1 /\ repo \notin DOMAIN stores
    THEN With(stores, repo, d.touched[1]) ELSE stores
=============================================================================
