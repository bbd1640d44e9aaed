---------------------------- MODULE Rfc6979Toy ----------------------------
(* The machine of Rfc6979 over two toy groups, explored completely: y^2 = x^3 - 3x + b over F_p
   with a prime number of points (7 and 9 bits, so scalars have excess bits, candidates are
   rejected often, x coordinates exceed the order, and one r is zero), and a toy hash of one
   octet (so that the 9 bit curve draws twice).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Jobs      \* how many messages of the second curve

P(c) == IF c = "A" THEN 113 ELSE 347
N(c) == IF c = "A" THEN 101 ELSE 331
G(c) == IF c = "A" THEN <<2, 50>> ELSE <<0, 4>>

RECURSIVE Pow(_, _, _)
Pow(b, e, n) == IF e = 0 THEN 1 ELSE LET h == Pow((b * b) % n, e \div 2, n) IN IF e % 2 = 1 THEN (h * b) % n ELSE h
Inv(a, n) == Pow(a % n, n - 2, n)

Add(c, x, y) ==
  LET p == P(c) IN
  IF x = <<>> THEN y ELSE IF y = <<>> THEN x
  ELSE IF x[1] = y[1] /\ (x[2] + y[2]) % p = 0 THEN <<>>
  ELSE LET l == IF x = y THEN ((3 * x[1] * x[1] - 3) * Inv(2 * x[2], p)) % p
                ELSE (((y[2] - x[2]) % p) * Inv(y[1] - x[1], p)) % p
           r == (l * l - x[1] - y[1]) % p
       IN <<r, (l * (x[1] - r) - x[2]) % p>>
\* the multiples of G, from 0 to N
RECURSIVE Build(_, _)
Build(c, s) == IF Len(s) > N(c) THEN s ELSE Build(c, Append(s, Add(c, s[Len(s)], G(c))))
TabA == Build("A", <<<<>>>>)
TabB == Build("B", <<<<>>>>)
T(c, k) == IF c = "A" THEN TabA[k + 1] ELSE TabB[k + 1]

OctLen(c) == IF c = "A" THEN 1 ELSE 2
Num(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] * 256 + s[i] IN F[Len(s)]
Oct(n, l) == IF l = 1 THEN <<n>> ELSE <<n \div 256, n % 256>>

TOrder(c) == Oct(N(c), OctLen(c))
THLen(a) == 1
\* a pseudo-random function of one octet
THmac(a, k, d) == LET F[i \in 0..Len(d)] == IF i = 0 THEN (k[1] * 167 + 41) % 65521 ELSE (F[i - 1] * 173 + d[i] * 59 + 101 + i) % 65521
                  IN <<((F[Len(d)] * 31) \div 97) % 256>>
TBaseX(c, k) == Oct(T(c, Num(k))[1], OctLen(c))
TAdd(a, b, q) == Oct((Num(a) + Num(b)) % Num(q), Len(q))
TMul(a, b, q) == Oct((Num(a) * Num(b)) % Num(q), Len(q))
TInv(a, q) == Oct(Inv(Num(a), Num(q)), Len(q))

R == INSTANCE Rfc6979 WITH Order <- TOrder, HLen <- THLen, Hmac <- THmac, BaseX <- TBaseX, AddMod <- TAdd, MulMod <- TMul, InvMod <- TInv

\* the tables are the groups they claim to be
ASSUME \A c \in {"A", "B"} : T(c, N(c)) = <<>> /\ \A k \in 1..N(c) - 1 : T(c, k) # <<>>

\* rejection sampling is unbiased: every scalar 1..q-1 comes from the same number of drawn octets
Draws(c) == IF c = "A" THEN {<<i>> : i \in 0..255} ELSE {<<i, j>> : i \in 0..255, j \in 0..255}
State(c, t) == [R!Start(c, Oct(1, OctLen(c)), <<>>, "toy") EXCEPT !.T = t]
ASSUME \A k \in 1..100 : Cardinality({t \in Draws("A") : LET n == State("A", t) IN R!Accepted(n) /\ Num(R!Cand(n)) = k}) = 2
\* for the larger curve: a candidate is the draw without its low bits, and is taken iff it is a scalar
ASSUME \A t \in Draws("B") : LET n == State("B", t)  k == Num(t) \div 128 IN
         Num(R!Cand(n)) = k /\ (R!Accepted(n) <=> k \in 1..330)

VARIABLE g
Spot == {0, 1, 100, 127, 128, 165, 166, 255}
Init == \/ \E x \in 1..100, h \in 0..255 : g = R!Start("A", <<x>>, <<h>>, "toy")
        \/ \E x \in {1, 2, 99, 255, 256, 329, 330}, a, b, d \in Spot : g = R!Start("B", Oct(x, 2), <<a, b, d>>, "toy")
        \/ \E x \in {1, 200, 330}, a \in 0..Jobs, b \in 0..Jobs : g = R!Start("B", Oct(x, 2), <<a % 256, b % 256>>, "toy")
        \/ \E x \in {1, 330}, a \in 0..255 : g = R!Start("B", Oct(x, 2), <<a>>, "toy")
Next == g.ph # "done" /\ g.rej < 20 /\ g' = R!Step(g)
Spec == Init /\ [][Next]_g

\* what is signed: the leftmost bits of the message
Msg == LET b == 8 * Len(g.h)  q == IF g.c = "A" THEN 7 ELSE 9 IN IF b > q THEN Num(g.h) \div 2 ^ (b - q) ELSE Num(g.h)
Verifies ==
  LET n == N(g.c)  w == Inv(Num(g.s), n)  k == ((((Msg % n) * w) % n) + ((((Num(g.r) * w) % n) * Num(g.x)) % n)) % n
  IN k # 0 /\ T(g.c, k)[1] % n = Num(g.r)
\* reading the encoding back gives the numbers
Parse(d) == LET a == d[4]  r == SubSeq(d, 5, 4 + a)  s == SubSeq(d, 7 + a, Len(d)) IN
            /\ d[1] = 48 /\ d[2] = Len(d) - 2 /\ d[3] = 2 /\ d[5 + a] = 2 /\ d[6 + a] = Len(s) /\ r[1] < 128 /\ s[1] < 128
            /\ Num(r) = Num(g.r) /\ Num(s) = Num(g.s)
            /\ \A u \in {r, s} : Len(u) > 1 => (u[1] # 0 \/ u[2] >= 128)
Inv1 == /\ Num(g.z) < N(g.c) /\ Num(g.z) = Msg % N(g.c)
        /\ g.ph = "done" => Num(g.r) \in 1..N(g.c) - 1 /\ Num(g.s) \in 1..N(g.c) - 1 /\ Verifies /\ Parse(R!Der(g))
=============================================================================
