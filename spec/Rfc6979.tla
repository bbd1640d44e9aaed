------------------------------ MODULE Rfc6979 ------------------------------
(* Deterministic ECDSA (RFC 6979, section 3.2, with SEC 1 / FIPS 186 signing) as a state machine
   over octet strings.  Nothing here is a number: an octet string is a sequence of 0..255, a
   scalar is the big-endian octet string of the length of the group order q, so that truncation,
   shifting and left padding are spelled out.  Hashing, the group and products modulo q are
   parameters: real ones when traces are judged (EcdsaPrim), a toy group when the machine itself is
   explored (Rfc6979Toy).

   A state g has the job (curve c, key x, hashed message h, hash a), the generator's K and V, the
   octets T drawn so far, and, at the end, the signature.                                    *)
EXTENDS Integers, Sequences

CONSTANTS
  Order(_),        \* curve -> q
  HLen(_),         \* hash -> octets
  Hmac(_, _, _),   \* hash, key, data
  BaseX(_, _),     \* curve, scalar k -> x coordinate of kG, as octets
  AddMod(_, _, _), MulMod(_, _, _), InvMod(_, _)   \* modulo the last argument

Rep(b, n) == [i \in 1..n |-> b]
Lt(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..i - 1 : a[j] = b[j]      \* equal lengths
Zero(a) == \A i \in 1..Len(a) : a[i] = 0

\* a - b for octet strings of equal length, a >= b
Sub(a, b) ==
  LET n == Len(a)
      F[i \in 0..n] ==   \* after the i lowest octets: <<octets, borrow>>
        IF i = 0 THEN <<<<>>, 0>>
        ELSE LET f == F[i - 1]  d == a[n - i + 1] - b[n - i + 1] - f[2] IN <<<<(d + 256) % 256>> \o f[1], IF d < 0 THEN 1 ELSE 0>>
  IN F[n][1]
Reduce(a, q) == IF Lt(a, q) THEN a ELSE Sub(a, q)          \* a < 2q

\* bits of an octet that are needed
Bits(b) == CHOOSE n \in 0..8 : 2 ^ n > b /\ (n = 0 \/ 2 ^ (n - 1) <= b)
QLen(q) == 8 * (Len(q) - 1) + Bits(q[1])
ShiftR(s, e) == [i \in 1..Len(s) |-> (s[i] \div (2 ^ e)) + (IF i = 1 THEN 0 ELSE (s[i - 1] * 2 ^ (8 - e)) % 256)]

\* the leftmost QLen(q) bits of s
Bits2Int(s, q) ==
  IF 8 * Len(s) > QLen(q) THEN LET sh == 8 * Len(s) - QLen(q) IN ShiftR(SubSeq(s, 1, Len(s) - sh \div 8), sh % 8)
  ELSE Rep(0, Len(q) - Len(s)) \o s
Bits2Octets(s, q) == Reduce(Bits2Int(s, q), q)

Start(c, x, h, a) == [ph |-> "k1", c |-> c, x |-> x, h |-> h, a |-> a, q |-> Order(c), z |-> Bits2Octets(h, Order(c)),
                      K |-> Rep(0, HLen(a)), V |-> Rep(1, HLen(a)), T |-> <<>>, rej |-> 0, r |-> <<>>, s |-> <<>>]

Cand(g) == Bits2Int(g.T, g.q)
\* 0 < k < q
Accepted(g) == LET k == Cand(g) IN ~Zero(k) /\ Lt(k, g.q)

Step(g) ==
  LET H(d) == Hmac(g.a, g.K, d) IN
  CASE g.ph = "k1" -> [g EXCEPT !.ph = "v1", !.K = H(g.V \o <<0>> \o g.x \o g.z)]
    [] g.ph = "v1" -> [g EXCEPT !.ph = "k2", !.V = H(g.V)]
    [] g.ph = "k2" -> [g EXCEPT !.ph = "v2", !.K = H(g.V \o <<1>> \o g.x \o g.z)]
    [] g.ph = "v2" -> [g EXCEPT !.ph = "draw", !.V = H(g.V)]
    [] g.ph = "draw" -> LET v == H(g.V) IN [g EXCEPT !.V = v, !.T = @ \o v, !.ph = IF 8 * Len(g.T \o v) < QLen(g.q) THEN "draw" ELSE "test"]
    [] g.ph = "test" /\ Accepted(g) ->
         LET k == Cand(g)
             r == Reduce(BaseX(g.c, k), g.q)
             s == MulMod(InvMod(k, g.q), AddMod(g.z, MulMod(r, g.x, g.q), g.q), g.q) IN
         IF Zero(r) \/ Zero(s) THEN [g EXCEPT !.ph = "rk", !.rej = @ + 1] ELSE [g EXCEPT !.ph = "done", !.r = r, !.s = s]
    [] g.ph = "test" -> [g EXCEPT !.ph = "rk", !.rej = @ + 1]
    [] g.ph = "rk" -> [g EXCEPT !.ph = "rv", !.K = H(g.V \o <<0>>)]
    [] g.ph = "rv" -> [g EXCEPT !.ph = "draw", !.V = H(g.V), !.T = <<>>]

\* DER: SEQUENCE of two INTEGERs in their shortest form
Strip(s) == LET F[i \in 1..Len(s) + 1] == IF i > Len(s) THEN <<>> ELSE IF s[i] = 0 THEN F[i + 1] ELSE SubSeq(s, i, Len(s)) IN F[1]
DerLen(n) == IF n < 128 THEN <<n>> ELSE <<129, n>>
DerInt(s) == LET t == Strip(s)  u == IF t = <<>> \/ t[1] >= 128 THEN <<0>> \o t ELSE t IN <<2>> \o DerLen(Len(u)) \o u
Der(g) == LET b == DerInt(g.r) \o DerInt(g.s) IN <<48>> \o DerLen(Len(b)) \o b
\* RFC 5246 digitally-signed: sha256, ecdsa
DigitallySigned(g) == LET d == Der(g) IN <<4, 3, Len(d) \div 256, Len(d) % 256>> \o d
=============================================================================
