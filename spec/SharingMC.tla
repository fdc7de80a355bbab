----------------------------- MODULE SharingMC -----------------------------
(* Secrecy of the sharing over small fields: with independent uniform        *)
(* coefficients every view of fewer than t positions is equally likely for   *)
(* every secret, and views of t positions determine the secret.              *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Fields, MaxT
VARIABLES q, t, pos, s1, s2
vars == <<q, t, pos, s1, s2>>

RECURSIVE Pow(_, _, _)
Pow(x, k, m) == IF k = 0 THEN 1 ELSE (x * Pow(x, k - 1, m)) % m
Coefs == [1 .. t - 1 -> 0 .. q - 1]
At(s, c, x) == LET RECURSIVE S(_)
                   S(k) == IF k = t THEN 0 ELSE (c[k] * Pow(x, k, q) + S(k + 1)) % q
               IN (s + S(1)) % q
ViewOf(s, c) == [x \in pos |-> At(s, c, x)]
Views == [pos -> 0 .. q - 1]
Ways(s) == TLCEval([v \in Views |-> Cardinality({c \in Coefs : ViewOf(s, c) = v})])

Init == /\ q \in Fields /\ t \in 2 .. MaxT
        /\ pos \in {p \in SUBSET (1 .. q - 1) : Cardinality(p) \in 1 .. t}
        /\ s1 \in 0 .. q - 1 /\ s2 \in s1 + 1 .. q - 1
Next == UNCHANGED vars
Hidden     == Cardinality(pos) < t => Ways(s1) = Ways(s2)
Determined == Cardinality(pos) = t => LET a == Ways(s1) b == Ways(s2) IN \A v \in Views : a[v] = 0 \/ b[v] = 0
=============================================================================
