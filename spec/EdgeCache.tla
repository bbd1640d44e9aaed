---------------------------- MODULE EdgeCache ----------------------------
(***************************************************************************)
(* What the runs of the monitor at the edge leave to each other in the     *)
(* cache they share. Several logs are served; each has a tree head, which  *)
(* grows, and tiles, which do not change. A run belongs to one log: it     *)
(* reads the head, then the tile of that head, each from the cache or else *)
(* from the storage of its log. A response of the storage may break off.   *)
(*                                                                         *)
(* ByBackend: the cache is asked for the backend and the name, not for the *)
(* name alone. Lifetimes: the lifetime the storage gives is kept (that of  *)
(* a tree head is zero). Whole: what broke off is not kept.                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Runs, Logs, MaxSize, Cuts, ByBackend, Lifetimes, Whole

VARIABLES size, cache, pc, log, since, head, tile, cuts
vars == <<size, cache, pc, log, since, head, tile, cuts>>

\* an object: the log it is of, its kind, the size of the tree it is of, and whether it is all there
None == [log |-> CHOOSE l \in Logs : TRUE, kind |-> "none", n |-> 0, ok |-> FALSE]

\* the name an object has in the cache; a tree head has the same name whatever its size
Name(l, kind, n) == <<IF ByBackend THEN l ELSE "any", kind, IF kind = "sth" THEN 0 ELSE n>>

Init ==
  /\ size = [l \in Logs |-> 1] /\ cache = {} /\ pc = [r \in Runs |-> "idle"]
  /\ log = [r \in Runs |-> CHOOSE l \in Logs : TRUE] /\ since = [r \in Runs |-> 0]
  /\ head = [r \in Runs |-> None] /\ tile = [r \in Runs |-> None] /\ cuts = Cuts

Grow(l) ==
  /\ size[l] < MaxSize
  /\ size' = [size EXCEPT ![l] = @ + 1]
  /\ UNCHANGED <<cache, pc, log, since, head, tile, cuts>>

Begin(r) ==
  /\ pc[r] \in {"idle", "ok", "failed"}
  /\ \E l \in Logs : log' = [log EXCEPT ![r] = l] /\ since' = [since EXCEPT ![r] = size[l]]
  /\ pc' = [pc EXCEPT ![r] = "sth"]
  /\ head' = [head EXCEPT ![r] = None] /\ tile' = [tile EXCEPT ![r] = None]
  /\ UNCHANGED <<size, cache, cuts>>

\* the object arrived
Take(r, o) ==
  IF pc[r] = "sth"
  THEN /\ head' = [head EXCEPT ![r] = o] /\ UNCHANGED tile
       /\ pc' = [pc EXCEPT ![r] = IF o.ok THEN "tile" ELSE "failed"]
  ELSE /\ tile' = [tile EXCEPT ![r] = o] /\ UNCHANGED head
       /\ pc' = [pc EXCEPT ![r] = IF o.ok THEN "ok" ELSE "failed"]

Wanted(r) == Name(log[r], pc[r], head[r].n)
InCache(r) == {o \in cache : o.name = Wanted(r)}

Hit(r) ==
  /\ pc[r] \in {"sth", "tile"} /\ InCache(r) # {}
  /\ \E o \in InCache(r) : Take(r, o.obj)
  /\ UNCHANGED <<size, cache, log, since, cuts>>

Miss(r) ==
  /\ pc[r] \in {"sth", "tile"} /\ InCache(r) = {}
  /\ \E cut \in BOOLEAN :
       LET o == [log |-> log[r], kind |-> pc[r], n |-> IF pc[r] = "sth" THEN size[log[r]] ELSE head[r].n, ok |-> ~cut] IN
       /\ cut => cuts > 0
       /\ cuts' = IF cut THEN cuts - 1 ELSE cuts
       /\ Take(r, o)
       /\ cache' = IF (o.ok \/ ~Whole) /\ (o.kind = "tile" \/ ~Lifetimes)
                   THEN cache \cup {[name |-> Wanted(r), obj |-> o]} ELSE cache
  /\ UNCHANGED <<size, log, since>>

Evict == \E o \in cache : cache' = cache \ {o} /\ UNCHANGED <<size, pc, log, since, head, tile, cuts>>

Next == (\E l \in Logs : Grow(l)) \/ (\E r \in Runs : Begin(r) \/ Hit(r) \/ Miss(r)) \/ Evict
Spec == Init /\ [][Next]_vars

\* a run sees the objects of the log it was asked for, of a tree not older than the request
Own == \A r \in Runs : \A o \in {head[r], tile[r]} : o # None => o.log = log[r]
Fresh == \A r \in Runs : head[r].n > 0 => head[r].n >= since[r]
Match == \A r \in Runs : pc[r] = "ok" => tile[r].n = head[r].n
\* a failure is over when the storage works again
Healed == \A o \in cache : o.obj.ok
=============================================================================
