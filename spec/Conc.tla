-------------------------------- MODULE Conc --------------------------------
(* Calls on separate data that run at the same time.  What a thread yields is *)
(* the sequence of the results of its calls.                                  *)
EXTENDS Integers, Sequences
(* got, alone: thread |-> sequence of results.  So far *)
Compatible(got, alone) ==
  \A t \in DOMAIN alone : Len(got[t]) <= Len(alone[t]) /\ \A i \in 1 .. Len(got[t]) : got[t][i] = alone[t][i]
(* and when all have ended *)
Independent(got, alone) == \A t \in DOMAIN alone : got[t] = alone[t]
=============================================================================
