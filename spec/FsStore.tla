------------------------------- MODULE FsStore -------------------------------
(* The filesystem storage: writers of one object, each a sequence of system calls that can end
   with the process at any point or fail; readers that open the object and read it piece by
   piece.  A file is an inode with pieces <<writer, number>>; a name points to an inode.
   C21: what a reader gets is the whole of one version, a version that was current at some
   point during the read, and a failed or crashed write leaves the old or the new version.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Writers, Readers, Pieces,
          Atomic,      \* written to another name and renamed (otherwise in place)
          Unique,      \* every writer has its own temporary name
          Exact        \* a write that the system cut short is noticed
VARIABLES ino,     \* inode -> pieces
          name,    \* directory: name -> inode
          w,       \* writer -> [st, ino, k]
          r,       \* reader -> [st, ino, got, may]
          ret,     \* writers whose write returned without an error
          cur      \* versions that may be the current one
vars == <<ino, name, w, r, ret, cur>>

Full(v) == [j \in 1..Pieces |-> <<v, j>>]
Old == 0
Tmp(i) == IF Unique THEN <<"tmp", i>> ELSE <<"tmp", 0>>
Obj == <<"obj", 0>>
Target(i) == IF Atomic THEN Tmp(i) ELSE Obj
Init == /\ ino = (Old :> Full(Old)) @@ [i \in Writers |-> <<>>]
        /\ name = (Obj :> Old)
        /\ w = [i \in Writers |-> [st |-> "idle", ino |-> Old, k |-> 0]]
        /\ r = [i \in Readers |-> [st |-> "idle", ino |-> Old, got |-> <<>>, may |-> {}]]
        /\ ret = {} /\ cur = {Old}

\* every reader under way may also get what becomes current
See(S) == r' = [i \in Readers |-> IF r[i].st = "read" THEN [r[i] EXCEPT !.may = @ \cup S] ELSE r[i]]

\* open: a new file, or the file of that name emptied
Open(i) == /\ w[i].st = "idle"
           /\ LET t == Target(i)  there == t \in DOMAIN name  n == IF there THEN name[t] ELSE i IN
              /\ ino' = [ino EXCEPT ![n] = <<>>]
              /\ name' = (t :> n) @@ name
              /\ w' = [w EXCEPT ![i] = [st |-> "write", ino |-> n, k |-> 0]]
           /\ UNCHANGED <<r, ret, cur>>
\* pieces are written at the writer's own position
At(s, k, x) == [j \in 1..(IF Len(s) > k THEN Len(s) ELSE k) |-> IF j = k THEN x ELSE IF j <= Len(s) THEN s[j] ELSE <<-1, j>>]
Write(i) == /\ w[i].st = "write" /\ w[i].k < Pieces
            /\ ino' = [ino EXCEPT ![w[i].ino] = At(@, w[i].k + 1, <<i, w[i].k + 1>>)]
            /\ w' = [w EXCEPT ![i].k = @ + 1]
            /\ UNCHANGED <<name, r, ret, cur>>
\* the disk is full: an error, or a short write that Exact notices
Fail(i) == /\ w[i].st = "write" /\ w[i].k < Pieces
           /\ w' = [w EXCEPT ![i].st = IF Exact THEN "undo" ELSE "close", ![i].k = Pieces]
           /\ UNCHANGED <<ino, name, r, ret, cur>>
Close(i) == /\ w[i].st = "write" /\ w[i].k = Pieces
            /\ w' = [w EXCEPT ![i].st = "close"]
            /\ UNCHANGED <<ino, name, r, ret, cur>>
Rename(i) == /\ w[i].st = "close"
             /\ IF Atomic
                THEN IF Tmp(i) \in DOMAIN name
                     THEN /\ name' = [t \in (DOMAIN name \cup {Obj}) \ {Tmp(i)} |-> IF t = Obj THEN name[Tmp(i)] ELSE name[t]]
                          /\ w' = [w EXCEPT ![i].st = "done"] /\ ret' = ret \cup {i}
                          /\ cur' = {i} /\ See({i})
                     ELSE w' = [w EXCEPT ![i].st = "failed"] /\ UNCHANGED <<name, ret, cur, r>>
                ELSE /\ w' = [w EXCEPT ![i].st = "done"] /\ ret' = ret \cup {i} /\ cur' = {i} /\ See({i}) /\ UNCHANGED name
             /\ UNCHANGED ino
Undo(i) == /\ w[i].st = "undo"
           /\ name' = IF Atomic THEN [t \in DOMAIN name \ {Tmp(i)} |-> name[t]] ELSE name
           /\ w' = [w EXCEPT ![i].st = "failed"]
           /\ UNCHANGED <<ino, r, ret, cur>>
Crash(i) == /\ w[i].st \in {"write", "close", "undo"}
            /\ w' = [w EXCEPT ![i].st = "dead"]
            /\ UNCHANGED <<ino, name, r, ret, cur>>

ROpen(i) == /\ r[i].st = "idle"
            /\ r' = [r EXCEPT ![i] = [st |-> "read", ino |-> name[Obj], got |-> <<>>, may |-> cur]]
            /\ UNCHANGED <<ino, name, w, ret, cur>>
RRead(i) == /\ r[i].st = "read"
            /\ LET k == Len(r[i].got) + 1  s == ino[r[i].ino] IN
               r' = [r EXCEPT ![i] = IF k <= Len(s) THEN [@ EXCEPT !.got = Append(@, s[k])] ELSE [@ EXCEPT !.st = "done"]]
            /\ UNCHANGED <<ino, name, w, ret, cur>>

Next == \/ \E i \in Writers : Open(i) \/ Write(i) \/ Fail(i) \/ Close(i) \/ Rename(i) \/ Undo(i) \/ Crash(i)
        \/ \E i \in Readers : ROpen(i) \/ RRead(i)
Spec == Init /\ [][Next]_vars

OldOrNew == \A i \in Readers : r[i].st = "done" => \E v \in r[i].may : r[i].got = Full(v)
\* at rest the object is a whole version: of the last write that returned
AtRest == (\A i \in Writers : w[i].st \in {"idle", "done", "failed", "dead"}) => \E v \in cur : ino[name[Obj]] = Full(v)
\* nothing but a crash leaves a temporary file behind
Clean == \A i \in Writers : w[i].st \in {"done", "failed"} => (~Unique \/ Tmp(i) \notin DOMAIN name)
=============================================================================
