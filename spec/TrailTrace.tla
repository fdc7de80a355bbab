----------------------------- MODULE TrailTrace -----------------------------
(* Conformance of what single calls (call) and the calls of peers in key      *)
(* generation sessions (peer) leave behind with Trail.                        *)
EXTENDS TraceBase
T == INSTANCE Trail
Range(q) == {q[k] : k \in DOMAIN q}
TStart(run) == {}          \* the peers that have signed their session keys
TStep(run, s, e) ==
  IF e.op = "call" THEN
    [st |-> s, bad |-> Viol("C35", T!Gone(e.what, Range(e.left)), e.what \o ": a copy of a secret is left")]
  ELSE LET signed == T!Signed(e.who \in s, e.ok, e.msgno) IN
    [st |-> IF signed THEN s \cup {e.who} ELSE s,
     bad |-> Viol("C35", T!Holds(signed, e.holds), "long-term key still held") \cup Viol("C35", T!Gone("session", Range(e.left)), "a copy of the long-term key is left")]
=============================================================================
