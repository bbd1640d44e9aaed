----------------------------- MODULE MerkleTest -----------------------------
(* Checks the bottom-up proof constructions of Merkle against the literal recursive
   definitions of RFC 6962 (PATH, PROOF), on symbolic hashes.                        *)
EXTENDS Merkle, TLC

VARIABLE n

\* symbolic MTH of [lo,hi): the range itself
RECURSIVE K(_, _)
K(s, k) == IF k * 2 < s THEN K(s, k * 2) ELSE k      \* largest power of two < s

RECURSIVE PATH(_, _, _)
PATH(x, lo, hi) ==
  IF hi - lo = 1 THEN <<>>
  ELSE LET k == K(hi - lo, 1) IN
       IF x < lo + k THEN Append(PATH(x, lo, lo + k), <<lo + k, hi>>)
       ELSE Append(PATH(x, lo + k, hi), <<lo, lo + k>>)

RECURSIVE SUBPROOF(_, _, _, _)
SUBPROOF(m, lo, hi, b) ==
  IF m = hi THEN IF b THEN <<>> ELSE << <<lo, hi>> >>
  ELSE LET k == K(hi - lo, 1) IN
       IF m <= lo + k THEN Append(SUBPROOF(m, lo, lo + k, b), <<lo + k, hi>>)
       ELSE Append(SUBPROOF(m, lo + k, hi, FALSE), <<lo, lo + k>>)

Named(rs) == [i \in 1..Len(rs) |-> Range(rs[i][1], rs[i][2])]

Init == n = 1
Next == n < 140 /\ n' = n + 1
PathOK == \A x \in 0..n-1 : AuditPath(x, n, 0) = Named(PATH(x, 0, n))
ConsOK == \A m \in 1..n : ConsProof(m, n, 0) = Named(SUBPROOF(m, 0, n, TRUE))
=============================================================================
