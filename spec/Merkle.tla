------------------------------- MODULE Merkle -------------------------------
(* RFC 6962 tree arithmetic and the tile geometry of the log.

   Numbers.  TLC integers have 32 bits, logs have 2^40 entries.  A scenario fixes a
   base D = d * 2^24 (d = 0 for ordinary logs); leaf indexes and tree sizes are written
   relative to D.  The position of a complete subtree of height l < 24 is relative too
   (pos - D/2^l); from height 24 on it is absolute.  Tile numbers below tile level 3 are
   relative, from tile level 3 on absolute.  (With tile width 256, level 3 = height 24.)

   A subtree that occurs in a proof is named <<l, p, 0>> when it is complete (height l,
   position p) and <<-1, lo, hi>> when it is the incomplete right edge [lo, hi).          *)
EXTENDS Integers, Sequences

CONSTANT TW                       \* tile width (256 in the code)

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* position of the height-l subtree containing relative index x
Pos(l, x, d) == IF l < 24 THEN x \div Pow(2, l) ELSE (d + x \div 16777216) \div Pow(2, l - 24)

\* is relative position p at height l the absolute position 0
IsZero(l, p, d) == p = 0 /\ (l >= 24 \/ d = 0)
Odd(p) == p % 2 = 1

RECURSIVE Strip2(_)
\* largest power of two dividing s > 0, as an exponent
Strip2(s) == IF s % 2 = 1 THEN 0 ELSE 1 + Strip2(s \div 2)
IsPow2(s) == s > 0 /\ s = Pow(2, Strip2(s))

RECURSIVE Log2(_)
Log2(s) == IF s = 1 THEN 0 ELSE 1 + Log2(s \div 2)

\* name of the range [lo,hi) when lo is a multiple of a power of two >= hi-lo
Range(lo, hi) == IF IsPow2(hi - lo) THEN <<Log2(hi - lo), lo \div (hi - lo), 0>> ELSE <<-1, lo, hi>>

\* the sibling subtree at height l, position p (a right sibling) of a tree of size n
Right(l, p, n, d) ==
  LET last == Pos(l, n - 1, d) IN
  IF p < last THEN <<l, p, 0>>
  ELSE \* p is the last position: complete iff n is a multiple of 2^l
    IF l >= 24
    THEN LET lo == (p * Pow(2, l - 24) - d) * 16777216 IN
         IF l = 24 /\ n - lo = 16777216 THEN <<l, p, 0>> ELSE Range(lo, n)
    ELSE LET lo == p * Pow(2, l) IN IF n - lo = Pow(2, l) THEN <<l, p, 0>> ELSE Range(lo, n)

RECURSIVE PathUp(_, _, _, _, _)
PathUp(l, p, x, n, d) ==    \* from the node at height l, position p up to the root of size n
  LET last == Pos(l, n - 1, d) IN
  IF IsZero(l, last, d) THEN <<>>
  ELSE LET here == IF Odd(p) THEN << <<l, p - 1, 0>> >>
                   ELSE IF p < last THEN << Right(l, p + 1, n, d) >> ELSE <<>>
       IN here \o PathUp(l + 1, Pos(l + 1, x, d), x, n, d)

\* RFC 6962 2.1.1: audit path of leaf x in the tree of size n
AuditPath(x, n, d) == PathUp(0, Pos(0, x, d), x, n, d)

RECURSIVE StripUp(_, _, _)
\* climb from the last leaf of the smaller tree while it is a right child
StripUp(l, x, d) == IF Odd(Pos(l, x, d)) THEN StripUp(l + 1, x, d) ELSE l

\* RFC 6962 2.1.2: consistency proof between tree sizes m and n
ConsProof(m, n, d) ==
  IF (m = 0 /\ d = 0) \/ m = n THEN <<>>
  ELSE LET l == StripUp(0, m - 1, d)
           p == Pos(l, m - 1, d)
           head == IF IsZero(l, p, d) THEN <<>> ELSE << <<l, p, 0>> >>
       IN head \o PathUp(l, p, m - 1, n, d)

\* number of complete level-L tile hashes of a tree of size n
RECURSIVE Count(_, _, _)
Count(L, n, d) == IF L < 3 THEN n \div Pow(TW, L)
                  ELSE IF L = 3 THEN d + n \div Pow(TW, 3) ELSE Count(L - 1, n, d) \div TW

\* position of the j-th (1-based) child of level-L hash p
ChildPos(L, p, j, d) == (IF L = 3 THEN p - d ELSE p) * TW + j - 1

\* tiles of level L (-1: data) a tree of size n needs that hold anything from position off on
TilesOf(L, n, off, d) ==
  LET LL == IF L < 0 THEN 0 ELSE L
      c == Count(LL, n, d)
      first == Count(LL, off, d) \div TW
      full == {<<L, j, TW>> : j \in first .. (c \div TW) - 1}
  IN IF c % TW = 0 THEN full ELSE full \cup {<<L, c \div TW, c % TW>>}

RECURSIVE TopLevel(_, _, _)
TopLevel(L, n, d) == IF Count(L + 1, n, d) = 0 THEN L ELSE TopLevel(L + 1, n, d)

RequiredTiles(n, off, d) ==
  IF n = 0 /\ d = 0 THEN {} ELSE UNION {TilesOf(L, n, off, d) : L \in -1 .. TopLevel(0, n, d)}

\* does the tile <<L, j, w>> lie completely inside a tree of size n
Covered(t, n, d) == t[2] * TW + t[3] <= Count(IF t[1] < 0 THEN 0 ELSE t[1], n, d)
=============================================================================
