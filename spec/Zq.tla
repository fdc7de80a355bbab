--------------------------------- MODULE Zq --------------------------------
(* The field with q elements and a group of order q written additively, in   *)
(* plain TLA+, for exhaustive models.                                        *)
EXTENDS Integers
CONSTANT Q
ZAdd(a, b) == (a + b) % Q
ZSub(a, b) == (a - b) % Q
ZMul(a, b) == (a * b) % Q
ZNum(i)    == i % Q
ZInv(a)    == IF a = 0 THEN 0 ELSE CHOOSE b \in 1 .. Q - 1 : (a * b) % Q = 1
=============================================================================
