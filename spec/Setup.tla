-------------------------------- MODULE Setup --------------------------------
(* The set-up program and the start of a log on what it left: three objects are written one
   after the other (the root list and the empty tree head to the storage, the configuration to
   the registry); every write can fail, applied or not, and the program can end at any point.
   It is run again, perhaps with another bundle, until it reports success; a log is started at
   any time.  C23: reported success means that all three objects are those of this run, and a
   log started then serves with them; a log never serves with a part of them missing.       *)
EXTENDS Integers, Sequences

CONSTANTS MaxRuns, MaxBad, Order,
          Checked      \* a failed write makes the run fail
None == 0
OrderC == <<"roots", "config", "sth">>
VARIABLES st,          \* object -> run that wrote it
          run, pc,     \* number of the run; next write (0: not running, 4: reported success)
          log, bad
vars == <<st, run, pc, log, bad>>

Init == st = [x \in {"roots", "config", "sth"} |-> None] /\ run = 0 /\ pc = 0 /\ log = [on |-> FALSE, tried |-> FALSE, with |-> st] /\ bad = 0
Begin == pc = 0 /\ run < MaxRuns /\ ~log.on /\ run' = run + 1 /\ pc' = 1 /\ log' = [log EXCEPT !.tried = FALSE] /\ UNCHANGED <<st, bad>>
Write == pc \in 1..3 /\ st' = [st EXCEPT ![Order[pc]] = run] /\ pc' = pc + 1 /\ UNCHANGED <<run, log, bad>>
Fail(ap) == /\ pc \in 1..3 /\ bad < MaxBad /\ bad' = bad + 1
            /\ st' = IF ap THEN [st EXCEPT ![Order[pc]] = run] ELSE st
            /\ pc' = IF Checked THEN 0 ELSE pc + 1
            /\ UNCHANGED <<run, log>>
End == pc \in 1..3 /\ bad < MaxBad /\ bad' = bad + 1 /\ pc' = 0 /\ UNCHANGED <<st, run, log>>
\* the log reads the configuration, the tree head and the roots; any of them missing stops it
Start == /\ ~log.on /\ ~log.tried /\ pc \in {0, 4}
         /\ log' = IF \A x \in DOMAIN st : st[x] # None THEN [on |-> TRUE, tried |-> TRUE, with |-> st] ELSE [log EXCEPT !.tried = TRUE]
         /\ UNCHANGED <<st, run, pc, bad>>
Next == Begin \/ Write \/ End \/ Start \/ \E ap \in BOOLEAN : Fail(ap)
Spec == Init /\ [][Next]_vars

Success == pc = 4 => \A x \in DOMAIN st : st[x] = run
Serves == pc = 4 /\ log.tried => log.on
Whole == log.on => \A x \in DOMAIN st : log.with[x] # None
=============================================================================
