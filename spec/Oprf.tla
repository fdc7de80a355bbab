------------------------------- MODULE Oprf --------------------------------
(* The base-mode OPRF of RFC 9497 over ristretto255 with SHA-512, and the    *)
(* message expansion of RFC 9380 it rests on.                                *)
EXTENDS Prims, TLC

(* ---- RFC 9380 section 5.3.1, expand_message_xmd with SHA-512 ---- *)
RECURSIVE Blocks(_, _, _, _, _)
Blocks(b0, prev, i, ell, dstp) ==
  IF i > ell THEN ""
  ELSE LET b == Sha512(BCat(BCat(BXor(b0, prev), I2OSP(i, 1)), dstp))
       IN BCat(b, Blocks(b0, b, i + 1, ell, dstp))

ExpandXmd(msg, dst, len) ==
  LET ell  == (len + 63) \div 64
      dstp == BCat(dst, I2OSP(BLen(dst), 1))
      b0   == Sha512(BCat(BCat(BCat(BCat(BZero(128), msg), I2OSP(len, 2)), I2OSP(0, 1)), dstp))
      b1   == Sha512(BCat(BCat(b0, I2OSP(1, 1)), dstp))
  IN BSub(BCat(b1, Blocks(b0, b1, 2, ell, dstp)), 0, len)

(* ---- RFC 9497 ---- *)
CtxString == BCat(BCat(Ascii("OPRFV1-"), I2OSP(0, 1)), Ascii("-ristretto255-SHA512"))
HashToGroup(x) == PFromHash(ExpandXmd(x, BCat(Ascii("HashToGroup-"), CtxString), 64))

(* operations return [ok, v]; a failed operation has no value *)
Fail  == [ok |-> FALSE, v |-> ""]
Ok(v) == [ok |-> TRUE, v |-> v]

(* exponentiation of a foreign element: refused unless it is a canonical     *)
(* encoding and the result is not the identity                               *)
MulChecked(s, p) ==
  IF ~PValid(p) THEN Fail
  ELSE LET q == PMul(s, p) IN IF q = P0 THEN Fail ELSE Ok(q)

Blind(x, r)     == MulChecked(r, HashToGroup(x))
Evaluate(k, a)  == MulChecked(k, a)
Unblind(r, z)   == IF SRed(r) = S0 THEN Fail ELSE MulChecked(SInv(r), z)
Finalize(x, n)  ==
  Sha512(BCat(BCat(BCat(BCat(I2OSP(BLen(x), 2), x), I2OSP(32, 2)), n), Ascii("Finalize")))

(* the function the protocol computes *)
F(k, x) == Finalize(x, PMul(k, HashToGroup(x)))
=============================================================================
