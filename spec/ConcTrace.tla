------------------------------ MODULE ConcTrace -----------------------------
(* Conformance of two programs that ran in two threads under a schedule.      *)
(* run.alone: what each yields on its own; event both: what they yielded.     *)
EXTENDS TraceBase
C == INSTANCE Conc
TStart(run) == 0
TStep(run, s, e) == [st |-> s + 1, bad |-> Viol("C33", C!Independent(e.got, run.alone), "a call yielded something else than alone")]
=============================================================================
