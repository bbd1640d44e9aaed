----------------------------- MODULE EcdsaPrim -----------------------------
(* The primitives under Rfc6979 for the real curves.  TLC evaluates them with EcdsaPrim.java
   (javax.crypto.Mac, java.math.BigInteger, affine point arithmetic); it does not use any code of
   the repository.  Octet strings are sequences of 0..255.                                   *)
POrder(c) == CHOOSE x : TRUE
PHLen(a) == CHOOSE x : TRUE
PHmac(a, k, d) == CHOOSE x : TRUE
PBaseX(c, k) == CHOOSE x : TRUE
PAddMod(a, b, q) == CHOOSE x : TRUE
PMulMod(a, b, q) == CHOOSE x : TRUE
PInvMod(a, q) == CHOOSE x : TRUE
=============================================================================
