------------------------------- MODULE MulMC -------------------------------
(* Exhaustive model of the multiplication of two shared values: 2t-1 dealers *)
(* re-share the products of their shares, every party combines.              *)
EXTENDS Zq, Sequences, FiniteSets, TLC
CONSTANTS N, K, Ordered   \* Ordered: dealers listed in ascending order only
ZValid(p) == p \in 0 .. Q - 1
T == INSTANCE Threshold WITH Add <- ZAdd, Sub <- ZSub, Mul <- ZMul, Inv <- ZInv, Num <- ZNum,
                             GAdd <- ZAdd, GMul <- ZMul, GValid <- ZValid, GBase <- ZNum, G0 <- 0, Canon <- ZValid
VARIABLES a, b, re, order
vars == <<a, b, re, order>>
Polys == [1 .. K -> 0 .. Q - 1]
Init == a \in Polys /\ b \in Polys /\ re = <<>> /\ order = <<>>
Reshare == /\ Len(order) < 2 * K - 1
           /\ \E d \in 1 .. N, c \in Polys :
                /\ d \notin {order[k] : k \in 1 .. Len(order)}
                /\ IF Ordered /\ order # <<>> THEN order[Len(order)] < d ELSE TRUE
                /\ c[1] = ZMul(T!Eval(a, d), T!Eval(b, d))
                /\ order' = Append(order, d) /\ re' = Append(re, c)
           /\ UNCHANGED <<a, b>>
Next == Reshare
(* combining with the interpolation weights of the dealers, in their order *)
Product == Len(order) = 2 * K - 1 =>
  LET x(j) == LET term(k) == ZMul(T!Eval(re[k], j), T!Lagrange(order[k], order)) IN T!Sum(term, 1, Len(order))
  IN T!IsSharing([j \in 1 .. N |-> <<j, x(j)>>], K, ZMul(a[1], b[1]))
=============================================================================
