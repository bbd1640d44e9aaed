------------------------------ MODULE Edge ------------------------------
(***************************************************************************)
(* The monitor at the edge: every request is a run of its own, with a      *)
(* number of requests to the storage it may make, and all runs share a     *)
(* cache. A look-up in the cache that finds nothing gets the obligation to *)
(* insert the object, and other look-ups of it wait until the object is    *)
(* there or the obligation is dropped (the fetch failed, or the run died). *)
(*                                                                         *)
(* A run answers get-entries: tree head, data tile, then the issuers of    *)
(* one entry after the other; it stops at the first issuer it has no       *)
(* requests left for. First = TRUE: but never before the first entry is    *)
(* complete.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Runs, Budget, Faults, First, Dropped

\* the issuers of the entries of the log
Chain == << <<"a", "b", "c">>, <<"c">>, <<"d", "a">> >>
N == Len(Chain)
Cached == {"tile", "a", "b", "c", "d"}     \* the tree head may not be cached
Keys == Cached \cup {"sth"}

VARIABLES
  cache,   \* objects in the cache
  own,     \* key -> the run with the obligation, "" if none
  pc,      \* run -> "idle", "run", "ok", "failed"
  start,   \* run -> the entry asked for
  pos,     \* run -> <<entry, issuer>>, entry = 0: before the entries (1 = tree head, 2 = tile)
  hold,    \* run -> the key it fetches now
  used,    \* run -> requests made
  ans,     \* run -> entries in the answer so far
  faults

vars == <<cache, own, pc, start, pos, hold, used, ans, faults>>

Init ==
  /\ cache = {} /\ own = [k \in Keys |-> ""] /\ pc = [r \in Runs |-> "idle"]
  /\ start = [r \in Runs |-> 0] /\ pos = [r \in Runs |-> <<0, 1>>] /\ hold = [r \in Runs |-> ""]
  /\ used = [r \in Runs |-> 0] /\ ans = [r \in Runs |-> <<>>] /\ faults = Faults

Begin(r) ==
  /\ pc[r] \in {"idle", "ok", "failed"}
  /\ \E s \in 1..N : start' = [start EXCEPT ![r] = s]
  /\ pc' = [pc EXCEPT ![r] = "run"] /\ pos' = [pos EXCEPT ![r] = <<0, 1>>]
  /\ used' = [used EXCEPT ![r] = 0] /\ ans' = [ans EXCEPT ![r] = <<>>]
  /\ UNCHANGED <<cache, own, hold, faults>>

Key(r) == IF pos[r][1] = 0 THEN <<"sth", "tile">>[pos[r][2]] ELSE Chain[pos[r][1]][pos[r][2]]

\* the object at pos is here: on to the next one
Advance(r) ==
  LET e == pos[r][1] i == pos[r][2] IN
  IF e = 0 /\ i = 1 THEN pos' = [pos EXCEPT ![r] = <<0, 2>>] /\ UNCHANGED <<ans, pc>>
  ELSE IF e = 0 THEN pos' = [pos EXCEPT ![r] = <<start[r], 1>>] /\ UNCHANGED <<ans, pc>>
  ELSE IF i < Len(Chain[e]) THEN pos' = [pos EXCEPT ![r] = <<e, i + 1>>] /\ UNCHANGED <<ans, pc>>
  ELSE /\ ans' = [ans EXCEPT ![r] = Append(@, e)]
       /\ IF e < N THEN pos' = [pos EXCEPT ![r] = <<e + 1, 1>>] /\ UNCHANGED pc
          ELSE pc' = [pc EXCEPT ![r] = "ok"] /\ pos' = [pos EXCEPT ![r] = <<0, 1>>]

Stops(r) == pos[r][1] > 0 /\ used[r] >= Budget /\ (First => ans[r] # <<>>)

Stop(r) ==
  /\ pc[r] = "run" /\ hold[r] = "" /\ Stops(r)
  /\ pc' = [pc EXCEPT ![r] = "ok"] /\ pos' = [pos EXCEPT ![r] = <<0, 1>>]
  /\ UNCHANGED <<cache, own, start, hold, used, ans, faults>>

Hit(r) ==
  /\ pc[r] = "run" /\ hold[r] = "" /\ ~Stops(r) /\ Key(r) \in cache
  /\ Advance(r)
  /\ UNCHANGED <<cache, own, start, hold, used, faults>>

Oblige(r) ==
  /\ pc[r] = "run" /\ hold[r] = "" /\ ~Stops(r) /\ Key(r) \notin cache /\ own[Key(r)] = ""
  /\ hold' = [hold EXCEPT ![r] = Key(r)] /\ own' = [own EXCEPT ![Key(r)] = r]
  /\ used' = [used EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<cache, pc, start, pos, ans, faults>>

Fetched(r) ==
  /\ pc[r] = "run" /\ hold[r] # ""
  /\ cache' = cache \cup ({hold[r]} \cap Cached)
  /\ own' = [own EXCEPT ![hold[r]] = ""] /\ hold' = [hold EXCEPT ![r] = ""]
  /\ Advance(r)
  /\ UNCHANGED <<start, used, faults>>

\* the storage fails the request and so does the run, or the run ends there and then
Fails(r) ==
  /\ pc[r] = "run" /\ hold[r] # "" /\ faults > 0
  /\ faults' = faults - 1
  /\ own' = IF Dropped THEN [own EXCEPT ![hold[r]] = ""] ELSE own
  /\ hold' = [hold EXCEPT ![r] = ""] /\ pc' = [pc EXCEPT ![r] = "failed"]
  /\ pos' = [pos EXCEPT ![r] = <<0, 1>>] /\ used' = [used EXCEPT ![r] = 0] /\ ans' = [ans EXCEPT ![r] = <<>>]
  /\ start' = [start EXCEPT ![r] = 0] /\ UNCHANGED cache

\* objects leave the cache at any time
Evict ==
  /\ cache # {} /\ \E k \in cache : cache' = cache \ {k}
  /\ faults > 0 /\ faults' = faults - 1
  /\ UNCHANGED <<own, pc, start, pos, hold, used, ans>>

Step(r) == Stop(r) \/ Hit(r) \/ Oblige(r) \/ Fetched(r)

Next == Evict \/ \E r \in Runs : Begin(r) \/ Step(r) \/ Fails(r)

\* a run that can go on goes on; others may take the object first, but not for ever
Spec == Init /\ [][Next]_vars /\ \A r \in Runs : SF_vars(Step(r))

\* an answer holds the entries asked for, without a gap, and at least one
NotEmpty == \A r \in Runs : pc[r] = "ok" => Len(ans[r]) >= 1
InOrder == \A r \in Runs : \A i \in 1..Len(ans[r]) : ans[r][i] = start[r] + i - 1
\* the requests for one answer are bounded: the budget, or one entry
Bounded == \A r \in Runs : used[r] <= IF Budget > 5 THEN Budget ELSE 5
\* an obligation is always somebody's
Owned == \A k \in Keys : own[k] # "" => hold[own[k]] = k
\* every request is answered
Answered == \A r \in Runs : (pc[r] = "run") ~> (pc[r] # "run")
=============================================================================
