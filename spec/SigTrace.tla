----------------------------- MODULE SigTrace -----------------------------
(* Judges signatures recorded from the real programs: for each sig event the machine of
   Rfc6979 is run to its end and its signature compared octet by octet.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, EcdsaPrim

R == INSTANCE Rfc6979 WITH Order <- POrder, HLen <- PHLen, Hmac <- PHmac, BaseX <- PBaseX, AddMod <- PAddMod, MulMod <- PMulMod, InvMod <- PInvMod

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pos, g, bad, cnt, seen
vars == <<pos, g, bad, cnt, seen>>

Bump(f, k) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + 1] ELSE (k :> 1) @@ f
RECURSIVE BumpAll(_, _)
BumpAll(f, S) == IF S = {} THEN f ELSE LET k == CHOOSE k \in S : TRUE IN BumpAll(Bump(f, k), S \ {k})

Idle == [ph |-> "none"]
Init == pos = 1 /\ g = Idle /\ bad = {} /\ cnt = << >> /\ seen = << >>

Key(ev) == <<ev.c, ev.x, ev.h, ev.a, ev.src = "sign">>
Checks(ev) ==
  LET want == IF ev.src = "sign" THEN R!Der(g) ELSE R!DigitallySigned(g) IN
  {<<"C24", IF ev.src = "sign" THEN "signature-not-rfc6979" ELSE "log-signature-not-rfc6979", ev.sig = want>>}
  \cup (IF g.rej > 0 THEN {<<"C24", "signature-after-rejected-nonce", ev.sig = want>>} ELSE {})
  \cup (IF Key(ev) \in DOMAIN seen THEN {<<"C24", "signature-not-repeatable", seen[Key(ev)] = ev.sig>>} ELSE {})

Skip == pos <= Len(Events) /\ Events[pos].e # "sig" /\ pos' = pos + 1 /\ UNCHANGED <<g, bad, cnt, seen>>
Begin == /\ pos <= Len(Events) /\ Events[pos].e = "sig" /\ g.ph = "none"
         /\ LET ev == Events[pos] IN g' = R!Start(ev.c, ev.x, ev.h, ev.a)
         /\ UNCHANGED <<pos, bad, cnt, seen>>
Run == g.ph \notin {"none", "done"} /\ g' = R!Step(g) /\ UNCHANGED <<pos, bad, cnt, seen>>
End == /\ g.ph = "done"
       /\ LET ev == Events[pos]  C == Checks(ev) IN
          /\ bad' = bad \cup {<<c[1], c[2], pos>> : c \in {c \in C : ~c[3]}}
          /\ cnt' = BumpAll(cnt, {<<c[1], c[2]>> : c \in C})
          /\ seen' = (Key(ev) :> ev.sig) @@ seen
       /\ g' = Idle /\ pos' = pos + 1

Finish == /\ pos = Len(Events) + 1 /\ g.ph = "none"
          /\ LET S == {<<k[1], k[2], cnt[k]>> : k \in DOMAIN cnt}
             IN JsonSerialize(IOEnv.VERDICT, [bad |-> bad, cnt |-> S, events |-> Len(Events)])
          /\ pos' = pos + 1
          /\ UNCHANGED <<g, bad, cnt, seen>>

Next == Skip \/ Begin \/ Run \/ End \/ Finish
Spec == Init /\ [][Next]_vars
View == <<pos, g>>
=============================================================================
