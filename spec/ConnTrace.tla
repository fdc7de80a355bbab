------------------------------ MODULE ConnTrace -----------------------------
(* Conformance of connections.  Events: connect (to the server srv), send     *)
(* (app: it arrived, clear: it was seen in clear on some connection), read,   *)
(* hangup, close.                                                             *)
EXTENDS TraceBase
C == INSTANCE Conn
Set(q) == {q[k] : k \in DOMAIN q}
Srv(s) == [s EXCEPT !.names = Set(@)]
CStart(run) == [st |-> C!Fresh, gone |-> FALSE]
V(cond, reason) == Viol("C31", cond, reason)
To(st, S, ok, reason) ==
  LET m == {x \in S : x[1] = ok} IN
  [st  |-> IF m = {} THEN (IF ok THEN [at |-> "up"] ELSE [at |-> "down"]) ELSE (CHOOSE x \in m : TRUE)[2],
   bad |-> V(m # {}, reason \o (IF ok THEN " succeeded" ELSE " failed"))]
CStep(run, s, e) ==
  LET c == run.client
      r == CASE e.op = "connect" -> To(s.st, C!Connect(s.st, [c EXCEPT !.file = e.file], Srv(e.srv)), e.ok, "connect")
             [] e.op = "send"    -> To(s.st, C!Send(s.st, s.gone), e.ok, "send")
             [] e.op = "read"    -> To(s.st, C!Read(s.st, s.gone, e.short), e.ok, "read")
             [] e.op = "close"   -> To(s.st, C!Close(s.st), e.ok, "close")
             [] e.op = "hangup"  -> [st |-> s.st, bad |-> {}]
      more == CASE e.op = "send" -> V(e.clear => (C!Clear(c) /\ e.ok), "sent in clear")
                                    \cup V(e.app => e.ok, "sent although not connected")
                                    \cup V((e.ok /\ ~s.gone /\ s.st.at = "up") => e.app, "not received")
                [] e.op = "read" -> V((e.ok /\ ~e.short) => e.same, "read something else")
                [] e.op = "close" -> V(e.ended, "connection left open")
                [] OTHER -> {}
  IN [st  |-> [st |-> r.st, gone |-> IF e.op = "hangup" THEN s.st.at = "up" ELSE IF e.op = "connect" /\ e.ok THEN FALSE ELSE s.gone],
      bad |-> r.bad \cup more]
=============================================================================
