----------------------------- MODULE NoiseBytes ----------------------------
(* The bytes of the secure channel: Noise_XK_25519_ChaChaPoly_BLAKE2b as     *)
(* published in the Noise Protocol Framework, revision 34.                   *)
(*      <- s                                                                 *)
(*      -> e, es                                                             *)
(*      <- e, ee                                                             *)
(*      -> s, se                                                             *)
(* This side knows the private keys of one party (the reference); of the     *)
(* other one (the library) it sees public keys only, which is enough for all *)
(* Diffie-Hellman results.                                                   *)
EXTENDS Integers, Sequences, Prims, Channel

Protocol == Ascii("Noise_XK_25519_ChaChaPoly_BLAKE2b")
HashLen  == 64
BlockLen == 128
H(x) == Blake2b(x, HashLen)

RECURSIVE Rep(_, _)
Rep(b, n) == IF n = 0 THEN "" ELSE BCat(b, Rep(b, n - 1))
Ipad == Rep("36", BlockLen)
Opad == Rep("5c", BlockLen)
HMac(k, x) ==       \* keys are 64 bytes here
  LET kb == BCat(k, BZero(BlockLen - HashLen)) IN H(BCat(BXor(kb, Opad), H(BCat(BXor(kb, Ipad), x))))
(* HKDF with two outputs *)
Hkdf(ck, ikm) ==
  LET t == HMac(ck, ikm) a == HMac(t, "01") IN <<a, HMac(t, BCat(a, "02"))>>

(* ---- symmetric state [h, ck, k, n]; bad: a Diffie-Hellman result was zero *)
Begin(prologue, rs) ==
  LET h0 == BCat(Protocol, BZero(HashLen - BLen(Protocol))) IN
  [h |-> H(BCat(H(BCat(h0, prologue)), rs)), ck |-> h0, k |-> "", n |-> 0, bad |-> FALSE]
MixHash(y, x) == [y EXCEPT !.h = H(BCat(@, x))]
MixKey(y, dh) ==
  IF dh = "" \/ y.bad THEN [y EXCEPT !.bad = TRUE]
  ELSE LET o == Hkdf(y.ck, dh) IN [y EXCEPT !.ck = o[1], !.k = BSub(o[2], 0, 32), !.n = 0]
(* EncryptAndHash, DecryptAndHash: <<symmetric state, output>> *)
Enc(y, pt) == LET c == Seal(y.k, y.n, y.h, pt) IN <<[MixHash(y, c) EXCEPT !.n = @ + 1], c>>
Dec(y, c)  == LET p == IF BLen(c) < 16 \/ y.bad THEN "bad" ELSE Unseal(y.k, y.n, y.h, c) IN
              <<IF p = "bad" THEN y ELSE [MixHash(y, c) EXCEPT !.n = @ + 1], p>>
Split(y) == LET o == Hkdf(y.ck, "") IN <<BSub(o[1], 0, 32), BSub(o[2], 0, 32)>>    \* initiator to responder, responder to initiator
=============================================================================
