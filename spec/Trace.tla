------------------------------- MODULE Trace -------------------------------
(* Judges traces recorded from the real programs: LogObs applied to each event in turn.
   The trace holds several scenarios; each starts with a reset event.  The checker consumes
   the whole trace and writes what was violated and how often each check was evaluated.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
PropSet == {Conf.props[i] : i \in 1..Len(Conf.props)}

Events == ndJsonDeserialize(IOEnv.TRACE)
Tab    == JsonDeserialize(IOEnv.TABLES)

TLeaf(m) == IF m > 0 /\ m <= Len(Tab.leaf) THEN Tab.leaf[m] ELSE [idx |-> -1, ts |-> 0, b |-> 0, h |-> 0]
TEnt(x)  == IF x > 0 /\ x <= Len(Tab.ent) THEN Tab.ent[x] ELSE [m |-> 0, b |-> 0, c |-> 0, ch |-> <<>>, wf |-> 0]
TKids(h) == IF h > 0 /\ h <= Len(Tab.kids) THEN Tab.kids[h] ELSE <<>>
TRoot(r) == IF r > 0 /\ r <= Len(Tab.root) THEN Tab.root[r] ELSE <<>>
TRlen(r) == IF r > 0 /\ r <= Len(Tab.rlen) THEN Tab.rlen[r] ELSE -1
TSub(s)  == Tab.sub[s]

O == INSTANCE LogObs WITH TW <- 256, Props <- PropSet, LeafOf <- TLeaf, EntOf <- TEnt, Kids <- TKids,
                          RootSeq <- TRoot, RootLen <- TRlen, SubOf <- TSub, Nil <- 0, BaseH <- -1,
                          RespBound <- 11000, ExitBound <- 10000, Grace <- 2000, RelGrace <- 600, GapBound <- 8000, PubBound <- 8000, Skew <- 5

VARIABLES pos, o, bad, cnt

Bump(f, k) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + 1] ELSE (k :> 1) @@ f
RECURSIVE BumpAll(_, _)
BumpAll(f, S) == IF S = {} THEN f ELSE LET k == CHOOSE k \in S : TRUE IN BumpAll(Bump(f, k), S \ {k})

Init == pos = 1 /\ o = O!InitObs([off |-> 0, size |-> 0, d24 |-> 0, tamper |-> 0]) /\ bad = {} /\ cnt = << >>

Step == /\ pos <= Len(Events)
        /\ LET ev == Events[pos] IN
           IF ev.e = "reset" THEN o' = O!InitObs(ev) /\ UNCHANGED <<bad, cnt>>
           ELSE LET C == O!Checks(o, ev) IN
                /\ bad' = bad \cup {<<c[1], c[2], pos>> : c \in {c \in C : ~c[3]}}
                /\ cnt' = BumpAll(cnt, {<<c[1], c[2]>> : c \in C})
                /\ o' = O!Apply(o, ev)
        /\ pos' = pos + 1

Finish == /\ pos = Len(Events) + 1
          /\ LET S == {<<k[1], k[2], cnt[k]>> : k \in DOMAIN cnt}
             IN JsonSerialize(IOEnv.VERDICT, [bad |-> bad, cnt |-> S, events |-> Len(Events)])
          /\ pos' = pos + 1
          /\ UNCHANGED <<o, bad, cnt>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_<<pos, o, bad, cnt>>
View == pos
=============================================================================
