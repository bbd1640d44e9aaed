------------------------------- MODULE Lookup -------------------------------
(* A lookup file (deduplication records, or leaf hash to index): rows <<key, value>> in key
   order.  A round merges its rows into the file one by one, each behind the rows with a
   smaller or the same key; a reader takes the first row of its key.  What LogObs asks of the
   files (sorted, nothing lost, the answer of a key never changes) is checked here on the
   algorithm, for every sequence of rounds over few keys, with crashes that lose a round
   before its tree head: the next process gives the same values to other keys.              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Keys, MaxRows, Round,     \* keys, rows in the file, rows of a round
          Behind                    \* a row goes behind the rows with the same key
VARIABLES f, n, first, all
vars == <<f, n, first, all>>

Pos(g, k) == \* insertion point, as the code searches it: the first row that is larger
  LET S == {j \in 1..Len(g) : IF Behind THEN k < g[j][1] ELSE k <= g[j][1]}
  IN IF S = {} THEN Len(g) + 1 ELSE CHOOSE j \in S : \A i \in S : j <= i
Insert(g, r) == LET p == Pos(g, r[1]) IN SubSeq(g, 1, p - 1) \o <<r>> \o SubSeq(g, p, Len(g))
RECURSIVE Merge(_, _)
Merge(g, rs) == IF rs = <<>> THEN g ELSE Merge(Insert(g, Head(rs)), Tail(rs))

None == -1
Find(g, k) == LET S == {j \in 1..Len(g) : g[j][1] = k} IN
              IF S = {} THEN None ELSE g[CHOOSE j \in S : \A i \in S : j <= i][2]

\* a reader that searches by bisection: the lowest row not below k
RECURSIVE Bisect(_, _, _, _)
Bisect(g, k, lo, hi) == IF lo = hi THEN lo
  ELSE LET mid == (lo + hi) \div 2 IN IF g[mid][1] < k THEN Bisect(g, k, mid + 1, hi) ELSE Bisect(g, k, lo, mid)
FindB(g, k) == LET j == Bisect(g, k, 1, Len(g) + 1) IN IF j <= Len(g) /\ g[j][1] = k THEN g[j][2] ELSE None

Init == f = <<>> /\ n = 0 /\ first = [k \in Keys |-> None] /\ all = {}

Batches == UNION {[1..m -> Keys] : m \in 1..Round}
Add == \E b \in Batches, lost \in BOOLEAN :
         /\ Len(f) + Len(b) <= MaxRows
         /\ LET rows == [j \in 1..Len(b) |-> <<b[j], n + j - 1>>] IN
            /\ f' = Merge(f, rows)
            /\ all' = all \cup {rows[j] : j \in 1..Len(rows)}
            /\ first' = [k \in Keys |-> IF first[k] # None THEN first[k] ELSE Find(rows, k)]
         \* a crash before the tree head: the positions are given again
         /\ n' = IF lost THEN n ELSE n + Len(b)
Spec == Init /\ [][Add]_vars

Sorted == \A j \in 1..Len(f) - 1 : f[j][1] <= f[j + 1][1]
NothingLost == all = {f[j] : j \in 1..Len(f)}
AnswerStays == \A k \in Keys : Find(f, k) = first[k]
Searches == \A k \in Keys : FindB(f, k) = Find(f, k)
=============================================================================
