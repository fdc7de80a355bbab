----------------------------- MODULE Threshold -----------------------------
(* Threshold evaluation, key generation from dealers' polynomials, share     *)
(* verification and multiplication of shared values, over any field and      *)
(* prime-order group (written additively).                                   *)
EXTENDS Sharing
CONSTANTS GAdd(_, _), GMul(_, _), GValid(_), GBase(_), G0, Canon(_)

TFail  == [ok |-> FALSE, v |-> ""]
TOk(v) == [ok |-> TRUE, v |-> v]

RECURSIVE GSum(_, _, _)
GSum(op(_), i, n) == IF i > n THEN G0 ELSE GAdd(op(i), GSum(op, i + 1, n))

Exp(s, p) == IF ~GValid(p) THEN TFail
             ELSE LET q == GMul(s, p) IN IF q = G0 THEN TFail ELSE TOk(q)

(* the client interpolates: parts is a sequence of <<index, element>> *)
ThresholdMult(parts) ==
  LET idx  == TLCEval(Indexes(parts))
      e    == TLCEval([k \in 1 .. Len(parts) |-> Exp(Lagrange(parts[k][1], idx), parts[k][2])])
      v(k) == e[k].v
  IN IF \E k \in 1 .. Len(parts) : ~GValid(parts[k][2]) \/ parts[k][2] = G0 THEN TFail
     ELSE IF \E k \in DOMAIN e : ~e[k].ok THEN TFail ELSE TOk(GSum(v, 1, Len(parts)))

(* the shareholders interpolate, given the participant list *)
EvalPart(share, a, idx) == Exp(Mul(share[2], Lagrange(share[1], idx)), a)
Combine(parts) ==
  LET v(k) == parts[k][2]
  IN IF \E k \in 1 .. Len(parts) : ~GValid(parts[k][2]) THEN TFail ELSE TOk(GSum(v, 1, Len(parts)))

(* a dealer's share s for party `self` against the dealer's commitments c *)
RECURSIVE CommitAt(_, _, _)
CommitAt(c, x, k) == IF k > Len(c) THEN G0 ELSE GAdd(c[k], GMul(x, CommitAt(c, x, k + 1)))
WellFormed(c)  == \A k \in 1 .. Len(c) : GValid(c[k])
ShareOk(c, self, s) ==
  /\ Canon(s)
  /\ WellFormed(c)
  /\ GBase(s) = CommitAt(c, Num(self), 1)
(* a commitment to a zero coefficient may be taken as malformed or not *)
Degenerate(c) == \E k \in 1 .. Len(c) : c[k] = G0

(* dealers party `self` must report and may report; coms, vals by dealer *)
MustReport(self, coms, vals) == {i \in 1 .. Len(coms) : i # self /\ ~ShareOk(coms[i], self, vals[i])}
MayReport(self, coms, vals)  ==
  MustReport(self, coms, vals) \cup {i \in 1 .. Len(coms) : i # self /\ Degenerate(coms[i])}

(* the Vandermonde matrix of idx times m is the identity *)
IsVdmInverse(idx, m) ==
  LET n == Len(idx)
      pw == TLCEval([i \in 1 .. n |-> LET RECURSIVE P(_)
                                          P(k) == IF k = 0 THEN <<Num(1)>>
                                                  ELSE LET q == P(k - 1) IN Append(q, Mul(q[k], Num(idx[i])))
                                      IN P(n - 1)])
  IN \A i, j \in 1 .. n :
       LET term(k) == Mul(pw[i][k], m[k][j]) IN Sum(term, 1, n) = Num(IF i = j THEN 1 ELSE 0)
=============================================================================
