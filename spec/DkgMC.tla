------------------------------- MODULE DkgMC -------------------------------
(* Exhaustive model of key generation with misbehaving dealers over a small  *)
(* field: dealers deal one after the other, possibly wrong shares, then each *)
(* party verifies and finishes.                                              *)
EXTENDS Zq, Sequences, FiniteSets, TLC
CONSTANTS N, K   \* parties, threshold
ZValid(p) == p \in 0 .. Q - 1
T == INSTANCE Threshold WITH Add <- ZAdd, Sub <- ZSub, Mul <- ZMul, Inv <- ZInv, Num <- ZNum,
                             GAdd <- ZAdd, GMul <- ZMul, GValid <- ZValid, GBase <- ZNum, G0 <- 0, Canon <- ZValid
P == 1 .. N
VARIABLES poly,   \* dealers' polynomials so far
          sent,   \* sent[i][j]: value dealer i gave party j
          fails,  \* fails[j]: dealers reported by j
          xi      \* final shares
vars == <<poly, sent, fails, xi>>
Init == poly = <<>> /\ sent = <<>> /\ fails = <<>> /\ xi = <<>>
(* dealer Len(poly)+1 deals; it errs towards at most one party *)
Deal == /\ Len(poly) < N
        /\ \E a \in [1 .. K -> 0 .. Q - 1], v \in P, d \in 0 .. 1 :
             /\ poly' = Append(poly, a)
             /\ sent' = Append(sent, [j \in P |-> ZAdd(T!Eval(a, j), IF j = v /\ j # Len(poly) + 1 THEN d ELSE 0)])
        /\ UNCHANGED <<fails, xi>>
Verify == /\ Len(poly) = N /\ Len(fails) < N
          /\ LET j == Len(fails) + 1
             IN fails' = Append(fails, T!MustReport(j, poly, [i \in P |-> sent[i][j]]))
          /\ UNCHANGED <<poly, sent, xi>>
Finish == /\ Len(fails) = N /\ \A j \in P : fails[j] = {}
          /\ Len(xi) < N
          /\ LET j == Len(xi) + 1
                 v(i) == sent[i][j]
             IN xi' = Append(xi, <<j, T!Sum(v, 1, N)>>)
          /\ UNCHANGED <<poly, sent, fails>>
Next == Deal \/ Verify \/ Finish

Exact == \A j \in 1 .. Len(fails) : fails[j] = {i \in P \ {j} : sent[i][j] # T!Eval(poly[i], j)}
Joint == Len(xi) = N =>
  LET s(i) == poly[i][1] IN T!IsSharing(xi, K, T!Sum(s, 1, N))
=============================================================================
