------------------------------ MODULE FrameTrace ----------------------------
(* Conformance of calls with Frame.                                           *)
(* call: tries = executions of one call with buffers elsewhere and other      *)
(*       garbage; each [ok, bufs], bufs with hexadecimal contents.            *)
(* twice: what a whole program (session, channel) yielded in two processes    *)
(*       whose unset memory holds different garbage; inputs: those changed.   *)
EXTENDS TraceBase
F == INSTANCE Frame
Val(f, t) ==
  IF f = "dkg_verify_commitments" THEN <<t.bufs[4].after, t.listed>>
  ELSE IF ~t.ok THEN <<>>                                \* a failed call promises nothing about its outputs
  ELSE LET fp == F!Footprint(f, t.ns) IN [k \in DOMAIN fp |-> IF fp[k][1] = "in" THEN "" ELSE t.bufs[k].after]
FStart(run) == 0
OneCall(e) ==
  LET t == e.tries
      fp == F!Footprint(e.f, t[1].ns)
      val(x) == Val(e.f, x)
  IN IF ~Assert(e.f \in F!Known /\ \A k \in DOMAIN t : F!Fits(fp, t[k].bufs), <<"buffers of the driver", e.f>>) THEN {}
     ELSE UNION {Viol("C34", F!Framed(fp, t[k].bufs), e.f \o ": memory other than the outputs changed") : k \in DOMAIN t}
          \cup UNION {Viol("C34", F!Same(t[1], t[k], val), e.f \o ": result depends on unrelated memory") : k \in DOMAIN t}
FStep(run, s, e) ==
  [st  |-> s + 1,
   bad |-> IF e.op = "call" THEN OneCall(e)
           ELSE Viol("C34", e.a = e.b, "result depends on unrelated memory") \cup Viol("C34", e.inputs = 0, "input changed")]
=============================================================================
