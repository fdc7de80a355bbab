------------------------------ MODULE Sharing ------------------------------
(* Shamir sharing over any prime field.  A share is <<index, value>>, a       *)
(* sharing a sequence of shares.  The field is a parameter: residues modulo a *)
(* small prime in the exhaustive models, the ristretto255 scalar field in     *)
(* the conformance specifications.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Inv(_), Num(_)

RECURSIVE Sum(_, _, _)
Sum(op(_), i, n) == IF i > n THEN Num(0) ELSE Add(op(i), Sum(op, i + 1, n))
RECURSIVE Prod(_, _, _)
Prod(op(_), i, n) == IF i > n THEN Num(1) ELSE Mul(op(i), Prod(op, i + 1, n))

(* coefficients a[1] + a[2] x + ... evaluated at x (Horner) *)
RECURSIVE Horner(_, _, _)
Horner(a, x, k) == IF k > Len(a) THEN Num(0) ELSE Add(a[k], Mul(x, Horner(a, x, k + 1)))
Eval(a, x) == Horner(a, Num(x), 1)
Share(a, n) == [i \in 1 .. n |-> <<i, Eval(a, i)>>]

(* Lagrange basis at zero for index i among the indexes idx (a sequence) *)
Lagrange(i, idx) ==
  LET num(j) == IF idx[j] = i THEN Num(1) ELSE Num(idx[j])
      den(j) == IF idx[j] = i THEN Num(1) ELSE Sub(Num(idx[j]), Num(i))
  IN Mul(Prod(num, 1, Len(idx)), Inv(Prod(den, 1, Len(idx))))

Indexes(s) == [k \in 1 .. Len(s) |-> s[k][1]]
Reconstruct(s) ==
  LET idx == TLCEval(Indexes(s))
      term(k) == Mul(s[k][2], Lagrange(s[k][1], idx))
  IN Sum(term, 1, Len(s))

(* Newton divided differences: all shares lie on one polynomial of degree     *)
(* below t iff the t-th differences vanish                                    *)
RECURSIVE Diff(_, _, _)
Diff(s, d, k) ==
  IF k = 0 THEN d
  ELSE LET p == TLCEval(Diff(s, d, k - 1))
           n == Len(p) - 1
       IN [i \in 1 .. n |-> Mul(Sub(p[i + 1], p[i]), Inv(Sub(Num(s[i + k][1]), Num(s[i][1]))))]
DegreeBelow(s, t) ==
  IF Len(s) <= t THEN TRUE
  ELSE LET d == TLCEval(Diff(s, TLCEval([i \in 1 .. Len(s) |-> s[i][2]]), t)) IN \A i \in DOMAIN d : d[i] = Num(0)

Distinct(idx) == \A i, j \in 1 .. Len(idx) : idx[i] = idx[j] => i = j

IsSharing(s, t, secret) ==
  /\ Len(s) >= t
  /\ Distinct(Indexes(s))
  /\ DegreeBelow(s, t)
  /\ Reconstruct(SubSeq(s, 1, t)) = secret
=============================================================================
