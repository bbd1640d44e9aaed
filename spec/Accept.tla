------------------------------- MODULE Accept -------------------------------
(* The acceptance policy of add-chain / add-pre-chain, over an abstract PKI, and the entry an
   accepted submission has to be logged as.

   A submission is: the leaf (who issued it, what kind it is, whether its signature holds,
   where its NotAfter lies), the certificates that follow it, and the endpoint.

   TLC checks that the two formulations of the policy agree and that the consequences below
   hold for every case (Init enumerates them), and writes the cases with the verdict of the
   policy to OUT; the harness submits them to the real program.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

\* subject, key | issuer, issuer's key | advertised root | precertificate signing | CA | signature holds
C(s, k, i, ik, adv, pre, ca, ok) == [s |-> s, k |-> k, i |-> i, ik |-> ik, adv |-> adv, pre |-> pre, ca |-> ca, ok |-> ok]
Pki ==
  "R1"  :> C("r1", 1, "r1", 1, TRUE, FALSE, TRUE, TRUE) @@
  "R2"  :> C("r2", 2, "r2", 2, TRUE, FALSE, TRUE, TRUE) @@
  "RR"  :> C("rr", 3, "rr", 3, TRUE, FALSE, TRUE, TRUE) @@     \* RSA root
  "RP"  :> C("rp", 4, "rp", 4, TRUE, TRUE, TRUE, TRUE) @@      \* root marked as precertificate signing
  "RX"  :> C("rx", 5, "rx", 5, FALSE, FALSE, TRUE, TRUE) @@    \* not advertised
  "I1"  :> C("i1", 6, "r1", 1, FALSE, FALSE, TRUE, TRUE) @@
  "I1b" :> C("i1", 6, "r2", 2, FALSE, FALSE, TRUE, TRUE) @@    \* cross-signed
  "I1s" :> C("i1", 6, "r1", 1, FALSE, FALSE, TRUE, FALSE) @@   \* forged signature
  "I2"  :> C("i2", 7, "i1", 6, FALSE, FALSE, TRUE, TRUE) @@
  "I3"  :> C("i3", 8, "i2", 7, FALSE, FALSE, TRUE, TRUE) @@
  "IR"  :> C("ir", 9, "rr", 3, FALSE, FALSE, TRUE, TRUE) @@    \* P-384, under the RSA root
  "IX"  :> C("ix", 10, "rx", 5, FALSE, FALSE, TRUE, TRUE) @@
  "R1t" :> C("r1", 14, "r1", 14, TRUE, FALSE, TRUE, TRUE) @@   \* advertised, same name as R1, other key
  "I1t" :> C("i1", 15, "r1", 14, FALSE, FALSE, TRUE, TRUE) @@  \* same name as I1, other key, under R1t
  "NC"  :> C("nc", 11, "i1", 6, FALSE, FALSE, FALSE, TRUE) @@  \* no CA certificate
  "P1"  :> C("p1", 12, "i1", 6, FALSE, TRUE, TRUE, TRUE) @@
  "P1n" :> C("p1", 12, "i1", 6, FALSE, FALSE, TRUE, TRUE) @@   \* the same without the precertificate EKU
  "PR"  :> C("pr", 13, "r2", 2, FALSE, TRUE, TRUE, TRUE)       \* precertificate signing, directly under a root
Names == DOMAIN Pki
Issuers == {"R2", "RP", "I1", "I2", "I3", "IR", "IX", "NC", "P1", "PR", "I1t"}
Leaf == "LEAF"

\* b issued a (b may be used to verify a)
Issued(b, subj, key) == b # Leaf /\ Pki[b].s = subj /\ Pki[b].k = key /\ Pki[b].ca
Link(a, b) == a # Leaf /\ Pki[a].ok /\ Issued(b, Pki[a].i, Pki[a].ik)
LinkLeaf(c, b) == c.sig /\ Issued(b, Pki[c.iss].s, Pki[c.iss].k)

Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Adv(b) == b # Leaf /\ Pki[b].adv

----------------------------------------------------------------------------
\* first formulation: the submitted certificates are a walk from the leaf, and the walk has
\* reached an advertised root or needs exactly one more step to one
Roots == {r \in Names : Pki[r].adv}
Walk(c) == /\ Distinct(c.chain)
           /\ c.chain # <<>> => LinkLeaf(c, c.chain[1])
           /\ \A i \in 1..Len(c.chain) - 1 : Link(c.chain[i], c.chain[i + 1])
Next1(c, b) == IF c.chain = <<>> THEN LinkLeaf(c, b) ELSE Link(c.chain[Len(c.chain)], b)
\* an advertised root ends the chain
Inner(c) == \A i \in 1..Len(c.chain) - 1 : ~Adv(c.chain[i])
Reaches(c) == \/ c.chain # <<>> /\ Adv(c.chain[Len(c.chain)])
              \/ \E r \in Roots : Next1(c, r)
ChainOK(c) == Walk(c) /\ Inner(c) /\ Reaches(c)

\* the chain to be logged: with the root
Full(c) == IF c.chain # <<>> /\ Adv(c.chain[Len(c.chain)]) THEN c.chain
           ELSE Append(c.chain, CHOOSE r \in Roots : Next1(c, r))

\* second formulation: the paths that exist, built from the roots down
RECURSIVE Up(_, _)
Up(n, S) == IF n = 0 THEN S ELSE Up(n - 1, S \cup UNION {{<<b>> \o p : b \in {b \in Names : Link(b, p[1]) /\ ~Adv(b) /\ \A i \in 1..Len(p) : p[i] # b}} : p \in S})
MaxUp == 5
Paths == Up(MaxUp - 1, {<<r>> : r \in Roots})
PathsOf(c) == {p \in Paths : LinkLeaf(c, p[1])}
ChainOK2(c) == \E p \in PathsOf(c) : c.chain = p \/ c.chain = SubSeq(p, 1, Len(p) - 1)

\* NotAfter: 1 one second before the start, 2 the start, 3 between, 4 the second before the
\* limit, 5 the limit, 6 later
InWindow(c) == c.na \in 2..4
KindOK(c) == c.kind \in {"cert", "pre"} /\ (c.kind = "pre") = (c.ep = "pre")
\* a precertificate needs the issuer its entry names
IssuerOK(c) == c.kind = "pre" => LET f == Full(c) IN ~Pki[f[1]].pre \/ Len(f) >= 2
Accept(c) == ChainOK(c) /\ InWindow(c) /\ KindOK(c) /\ IssuerOK(c)

\* what the entry names as issuer
FinalIssuer(c) == LET f == Full(c) IN IF c.kind # "pre" THEN "" ELSE IF Pki[f[1]].pre THEN f[2] ELSE f[1]

----------------------------------------------------------------------------
(* The cases *)
Seqs(n) == UNION {[1..k -> Names \cup {Leaf}] : k \in 0..n}
Case(iss, ch, kind, na, sig, ep) == [iss |-> iss, chain |-> ch, kind |-> kind, na |-> na, sig |-> sig, ep |-> ep]

Good == {<<i, p>> \in Issuers \X Paths : LinkLeaf(Case(i, <<>>, "cert", 3, TRUE, "cert"), p[1])}
GoodBoth == Good \cup {<<g[1], SubSeq(g[2], 1, Len(g[2]) - 1)>> : g \in Good}
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Edits(s) == {Del(s, i) : i \in 1..Len(s)} \cup {Ins(s, i, x) : i \in 1..Len(s) + 1, x \in Names \cup {Leaf}}
       \cup {[s EXCEPT ![i] = x] : i \in 1..Len(s), x \in Names} \cup {Swap(s, i, j) : i, j \in 1..Len(s)}
Near == UNION {{<<g[1], e>> : e \in Edits(g[2])} : g \in GoodBoth}
Short == {i \in Issuers : TRUE} \X Seqs(2)
Shapes == GoodBoth \cup Near \cup Short

\* every shape as certificate and precertificate, on the right endpoint
Plain == {Case(g[1], g[2], k, 3, TRUE, k) : g \in Shapes, k \in {"cert", "pre"}}
\* accepted shapes with everything else varied
Varied == {Case(g[1], g[2], k, na, sig, ep) : g \in GoodBoth, k \in {"cert", "pre", "bad1", "bad2"}, na \in 1..6, sig \in BOOLEAN, ep \in {"cert", "pre"}}
Cases == Plain \cup Varied

VARIABLE c
Init == c \in Cases
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

Agree == Len(c.chain) < MaxUp => (ChainOK(c) <=> ChainOK2(c))
\* adding or leaving out the root makes no difference
RootOptional == ChainOK(c) => LET f == Full(c) IN ChainOK([c EXCEPT !.chain = f]) /\ ChainOK([c EXCEPT !.chain = SubSeq(f, 1, Len(f) - 1)])
                                  /\ Full([c EXCEPT !.chain = SubSeq(f, 1, Len(f) - 1)]) = f
\* nothing is accepted without a root the log advertises, and never through a forged link
Rooted == Accept(c) => Adv(Full(c)[Len(Full(c))]) /\ \A i \in 1..Len(Full(c)) - 1 : Pki[Full(c)[i]].ok /\ ~Adv(Full(c)[i])
OneEndpoint == Accept(c) => ~Accept([c EXCEPT !.ep = IF c.ep = "pre" THEN "cert" ELSE "pre"])
IssuerKnown == Accept(c) /\ c.kind = "pre" => ~Pki[FinalIssuer(c)].pre \/ Pki[Full(c)[1]].pre
UniqueRoot == ChainOK(c) => Cardinality({r \in Roots : Next1(c, r)}) <= 1

Row(x) == [iss |-> x.iss, chain |-> x.chain, kind |-> x.kind, na |-> x.na, sig |-> x.sig, ep |-> x.ep,
           ok |-> Accept(x), full |-> IF ChainOK(x) THEN Full(x) ELSE <<>>, final |-> IF Accept(x) THEN FinalIssuer(x) ELSE "",
           near |-> IF ChainOK(x) THEN 1 ELSE 0]
ASSUME "OUT" \notin DOMAIN IOEnv \/ JsonSerialize(IOEnv.OUT, SetToSeq({Row(x) : x \in Cases}))
=============================================================================
