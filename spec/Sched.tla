-------------------------------- MODULE Sched --------------------------------
(* Behaviours of the design as schedules for the real programs.

   Itko.tla with a history of its steps.  TLC simulates it (seeded) and prints the history of
   each behaviour; the harness (fam_sched.go) realises the steps of the environment in that
   order: submissions, which write of a round lands next, failing writes, crashes, lost
   sessions, fail-overs, and monitor queries that are split between reading the tree head and
   reading the tiles.                                                                      *)
EXTENDS Itko, Json

CONSTANT Depth
VARIABLE hist
svars == <<o, bad, clk, inst, req, mon, nreq, nbad, nq, hist>>

Log(r) == hist' = Append(hist, r)
Rare(n) == RandomElement(1..n) = 1

Desc(p) == IF p.k = "tree" THEN [k |-> p.k, l |-> p.l, n |-> p.n, w |-> p.w]
           ELSE IF p.k = "data" THEN [k |-> p.k, l |-> -1, n |-> p.n, w |-> p.w] ELSE [k |-> p.k, l |-> 0, n |-> 0, w |-> 0]

SInit == Init /\ hist = <<>>
SNext ==
  \/ \E i \in Insts :
       \/ Acquire(i) /\ Log([a |-> "start", i |-> i])
       \/ Load(i) /\ Log([a |-> "up", i |-> i])
       \/ Rare(30) /\ Crash(i) /\ Log([a |-> "crash", i |-> i])
       \/ (inst[i].mode = "dead" \/ Rare(40)) /\ Expire(i) /\ Log([a |-> "expire", i |-> i])
       \/ Unlock(i) /\ Log([a |-> "unlock", i |-> i])
       \/ Exit(i) /\ Log([a |-> "exit", i |-> i])
       \/ Sequence(i) /\ UNCHANGED hist
       \* empty rounds now and then
       \/ (inst[i].pool # <<>> \/ Rare(20)) /\ Flush(i) /\ Log([a |-> "flush", i |-> i, n |-> Len(inst[i].pool)])
       \/ Begin(i) /\ UNCHANGED hist
       \/ Return(i) /\ Log([a |-> "ret", i |-> i])
       \/ \E s \in SubIds : Rare(12) /\ Submit(i, s) /\ Log([a |-> "sub", i |-> i, s |-> s])
       \/ \E k \in {"sth", "ckpt"} : WriteHead(i, k) /\ Log([a |-> "head", i |-> i, k |-> k, n |-> Len(inst[i].rnd.pool)])
       \/ \E k \in {"sth", "ckpt"}, ap \in BOOLEAN : Rare(25) /\ FailHead(i, k, ap) /\ Log([a |-> "failhead", i |-> i, k |-> k, ap |-> ap, n |-> Len(inst[i].rnd.pool)])
       \/ \E p \in inst[i].rnd.todo : Land(i, p) /\ Log([a |-> "land", i |-> i] @@ Desc(p))
       \/ \E p \in inst[i].rnd.todo, ap \in BOOLEAN : Rare(30) /\ FailWrite(i, p, ap) /\ Log([a |-> "fail", i |-> i, ap |-> ap] @@ Desc(p))
  \/ \E q \in DOMAIN req : Lookup(q) /\ UNCHANGED hist
  \/ \E q \in DOMAIN req : Answer(q) /\ UNCHANGED hist
  \/ Rare(8) /\ QStart /\ Log([a |-> "q0", op |-> mon'.op, x |-> mon'.a, y |-> mon'.b, h |-> IF mon'.h = Nil THEN -1 ELSE mon'.h[1]])
  \/ Rare(3) /\ QEnd /\ Log([a |-> "q1"])
  \/ UNCHANGED svars

SSpec == SInit /\ [][SNext]_svars

\* printed once per behaviour, at its end
Dump == TLCGet("level") # Depth \/ PrintT("SCHED" \o ToJson([h |-> hist, size |-> o.sth.size]))
=============================================================================
