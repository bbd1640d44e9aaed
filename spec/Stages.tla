------------------------------- MODULE Stages -------------------------------
(* The submission pipeline with its clocks and queues: requests wait at most T for a place in
   the queue of stage one and for their entry; stage one sequences entries into a pool that is
   handed to stage two when it is full, when an entry arrives F after the last hand-over, or
   when nothing arrived for F; stage two publishes one pool after the other.

   Time passes in ticks; a step of the programs takes no time (a tick waits for all enabled
   steps), only a publication does: up to D ticks, or for ever if it may Stall.  Requests are
   kept in slots that are used again, so the state space is finite and covers every length of
   run.                                                                                     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots,      \* requests at a time
          MaxArr,     \* new requests per tick
          C1, C2,     \* queues of stage one and two (200 and 2)
          P,          \* pool size (255)
          F, T, D,    \* flush interval, answer timeout, longest publication
          Stall,      \* a publication may take for ever
          Bound,      \* claimed bound on the age of the tree head (C22)
          Guarded,    \* waiting for a place in the queue is covered by the timeout
          ByEntry     \* a full interval since the last hand-over is noticed when entries keep arriving

VARIABLES slot,       \* slot -> [st, left, ok]; st: free, send (waits for a place), wait (for the entry)
          ch,         \* queue of stage one: slot numbers; 0: the request is gone
          pool, out,  \* stage one's pool; the pool it is blocked on (<<>>: not blocked)
          blocked, tmr, since,
          q2, two,    \* queue of stage two; the publication under way
          age,        \* ticks since the last tree head
          lost,       \* a 503 was given
          arr         \* requests that arrived since the last tick
vars == <<slot, ch, pool, out, blocked, tmr, since, q2, two, age, lost, arr>>

Free == [st |-> "free", left |-> 0, ok |-> FALSE]
Idle == [busy |-> FALSE, left |-> 0, pool |-> <<>>]
Init == /\ slot = [k \in Slots |-> Free] /\ ch = <<>> /\ pool = <<>> /\ out = <<>> /\ blocked = FALSE
        /\ tmr = F /\ since = 0 /\ q2 = <<>> /\ two = Idle /\ age = 0 /\ lost = FALSE /\ arr = 0

\* finitely many requests arrive in a tick
Arrive(k) == /\ slot[k].st = "free" /\ arr < MaxArr
             /\ arr' = arr + 1
             /\ slot' = [slot EXCEPT ![k] = [st |-> "send", left |-> T, ok |-> FALSE]]
             /\ UNCHANGED <<ch, pool, out, blocked, tmr, since, q2, two, age, lost>>

CanEnter(k) == slot[k].st = "send" /\ Len(ch) < C1
Enter(k) == /\ CanEnter(k)
            /\ ch' = Append(ch, k) /\ slot' = [slot EXCEPT ![k].st = "wait"]
            /\ UNCHANGED <<pool, out, blocked, tmr, since, q2, two, age, lost, arr>>

Forget(k, s) == [j \in 1..Len(s) |-> IF s[j] = k THEN 0 ELSE s[j]]
CanGiveUp(k) == slot[k].left = 0 /\ ~slot[k].ok /\ slot[k].st \in (IF Guarded THEN {"send", "wait"} ELSE {"wait"})
\* 503; the entry stays where it is
GiveUp(k) == /\ CanGiveUp(k)
             /\ slot' = [slot EXCEPT ![k] = Free]
             /\ ch' = Forget(k, ch) /\ pool' = Forget(k, pool) /\ out' = Forget(k, out)
             /\ q2' = [j \in 1..Len(q2) |-> Forget(k, q2[j])] /\ two' = [two EXCEPT !.pool = Forget(k, @)]
             /\ lost' = TRUE
             /\ UNCHANGED <<blocked, tmr, since, age, arr>>

CanAnswer(k) == slot[k].st = "wait" /\ slot[k].ok
Answer(k) == /\ CanAnswer(k)
             /\ slot' = [slot EXCEPT ![k] = Free]
             /\ UNCHANGED <<ch, pool, out, blocked, tmr, since, q2, two, age, lost, arr>>

\* ---- stage one: the timer starts again with every turn of the loop
HandOver(p) == /\ pool' = <<>> /\ out' = p /\ blocked' = TRUE
CanTake == ~blocked /\ ch # <<>>
Take == /\ CanTake
        /\ ch' = Tail(ch)
        /\ LET p == Append(pool, Head(ch)) IN
           IF Len(p) >= P \/ (ByEntry /\ since >= F)
           THEN HandOver(p)
           ELSE pool' = p /\ UNCHANGED <<out, blocked>>
        /\ tmr' = F
        /\ UNCHANGED <<slot, since, q2, two, age, lost, arr>>

CanFlush == ~blocked /\ tmr = 0
Flush == /\ CanFlush /\ HandOver(pool) /\ tmr' = F
         /\ UNCHANGED <<slot, ch, since, q2, two, age, lost, arr>>

CanSend == blocked /\ Len(q2) < C2
Send == /\ CanSend
        /\ q2' = Append(q2, out) /\ out' = <<>> /\ blocked' = FALSE /\ since' = 0 /\ tmr' = F
        /\ UNCHANGED <<slot, ch, pool, two, age, lost, arr>>

\* ---- stage two
CanBegin == ~two.busy /\ q2 # <<>>
Begin == /\ CanBegin
         /\ two' = [busy |-> TRUE, left |-> D, pool |-> Head(q2)] /\ q2' = Tail(q2)
         /\ UNCHANGED <<slot, ch, pool, out, blocked, tmr, since, age, lost, arr>>

Publish == /\ two.busy
           /\ slot' = [k \in Slots |-> IF \E j \in 1..Len(two.pool) : two.pool[j] = k THEN [slot[k] EXCEPT !.ok = TRUE] ELSE slot[k]]
           /\ two' = Idle /\ age' = 0
           /\ UNCHANGED <<ch, pool, out, blocked, tmr, since, q2, lost, arr>>

Dec(n) == IF n = 0 THEN 0 ELSE n - 1
\* time passes when nothing else is due
Due == \/ \E k \in Slots : CanEnter(k) \/ CanGiveUp(k) \/ CanAnswer(k)
       \/ CanTake \/ CanFlush \/ CanSend \/ CanBegin
       \/ (two.busy /\ two.left = 0 /\ ~Stall)
Tick == /\ ~Due
        /\ slot' = [k \in Slots |-> [slot[k] EXCEPT !.left = Dec(@)]]
        /\ tmr' = IF blocked THEN tmr ELSE Dec(tmr)
        /\ since' = IF since < F THEN since + 1 ELSE since
        /\ two' = [two EXCEPT !.left = Dec(@)]
        /\ age' = IF age > Bound THEN age ELSE age + 1
        /\ arr' = 0
        /\ UNCHANGED <<ch, pool, out, blocked, q2, lost>>

Work == \/ \E k \in Slots : Enter(k) \/ GiveUp(k) \/ Answer(k)
        \/ Take \/ Flush \/ Send \/ Begin \/ Publish
Next == Tick \/ Work \/ \E k \in Slots : Arrive(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Take) /\ WF_vars(Flush) /\ WF_vars(Send) /\ WF_vars(Begin)
             /\ (~Stall => WF_vars(Publish)) /\ \A k \in Slots : WF_vars(Enter(k)) /\ WF_vars(GiveUp(k)) /\ WF_vars(Answer(k))

----------------------------------------------------------------------------
\* C22: the tree head is never older than Bound
Fresh == Stall \/ age <= Bound
\* C06: with time for the queues ahead of it every request gets its SCT
NoRefusal == ~lost
\* C06: no request stays without an answer (T ticks are counted by its slot)
Answered == \A k \in Slots : slot[k].st # "free" ~> slot[k].st = "free"
\* an entry is in one place only, and nobody waits for an entry that is nowhere
Places(k) == Cardinality({j \in 1..Len(ch) : ch[j] = k}) + Cardinality({j \in 1..Len(pool) : pool[j] = k}) + Cardinality({j \in 1..Len(out) : out[j] = k})
             + Cardinality({<<a, b>> \in (1..Len(q2)) \X (1..P) : b <= Len(q2[a]) /\ q2[a][b] = k}) + Cardinality({j \in 1..Len(two.pool) : two.pool[j] = k})
OnePlace == \A k \in Slots : Places(k) = (IF slot[k].st = "wait" /\ ~slot[k].ok THEN 1 ELSE 0)
Sizes == Len(pool) < P /\ Len(out) <= P /\ Len(ch) <= C1 /\ Len(q2) <= C2
=============================================================================
