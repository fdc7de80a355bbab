----------------------------- MODULE TraceBase -----------------------------
(* Conformance of recorded runs.  Each line of $TRACE is one run of the real *)
(* code: {"id", ..., "ev": [event, ...]}.  The root module defines           *)
(*    Start(run)         initial state of the specification for that run     *)
(*    Step(run, st, e)   [st, bad]: successor state after event e and the    *)
(*                       set of <<property, reason>> pairs that e violates   *)
(* A run conforms if all its events are consumed and the property in $FOCUS  *)
(* never occurs in bad.  The caller compares the number of distinct states   *)
(* with the number of events, so that a run which gets stuck is noticed.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Start(_), Step(_, _, _)

Runs  == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES rn, ln, sst, bad, why

Init == /\ rn \in 1 .. Len(Runs)
        /\ ln = 0
        /\ sst = Start(Runs[rn])
        /\ bad = {}
        /\ why = {}

Next == /\ ln < Len(Runs[rn].ev)
        /\ LET e == Runs[rn].ev[ln + 1]
               n == IF e.op = "crash" THEN [st |-> sst, bad |-> {<<Focus, "crash">>}]
                                      ELSE Step(Runs[rn], sst, e)
           IN /\ sst'  = n.st
              /\ bad' = {b[1] : b \in n.bad}
              /\ why' = {b[2] : b \in n.bad}
        /\ ln' = ln + 1
        /\ UNCHANGED rn

Conforms == IF Focus = "ANY" THEN bad = {} ELSE Focus \notin bad

(* helpers for root modules *)
Viol(p, cond, reason) == IF cond THEN {} ELSE {<<p, reason>>}
Has(rec, f) == f \in DOMAIN rec
=============================================================================
