------------------------------ MODULE ResTrace ------------------------------
(* Conformance of calls (call), key generation sessions (session) and the     *)
(* lives of channels and devices (closed) with Res.                           *)
EXTENDS TraceBase
R == INSTANCE Res
RStart(run) == 0
Left(l, what) == Viol("C32", R!GivenBack(l), what \o IF l[1] > 0 THEN ": memory not given back" ELSE ": locked memory not given back")
Under(e) == UNION {Left(f.left, "without lock") \cup Viol("C32", R!Honest(f), "wrong result without lock") : f \in {e.faults[k] : k \in DOMAIN e.faults}}
RStep(run, s, e) ==
  [st  |-> s + 1,
   bad |-> Left(e.left, IF e.op = "closed" THEN "released" ELSE IF e.ok THEN "success" ELSE "failure")
           \cup IF Has(e, "faults") THEN Under(e) ELSE {}]
=============================================================================
