------------------------------ MODULE PyTrace ------------------------------
(* Conformance of the Python binding.                                        *)
EXTENDS PyApi, PyNoise

PStart(run) == [al |-> AStart(run), msg0 |-> {}, m |-> St0, tp |-> [n |-> 0, t |-> 0]]
V(cond, reason) == Viol("C26", cond, reason)

(* calls within a key generation session *)
Msg(a, need) == IF need = 0 THEN a.t \in {"bytes", "str"} /\ BLen(a.v) = 0 ELSE B(a, need)
Session(st, e) ==
  LET in == CASE e.f \in {"tp_next", "peer_next"} -> Msg(Plain(e.a), e.need)
              [] e.f = "tp_peer_msg" -> I(Plain(e.a), 0, e.n - 1)
  IN IF in THEN e.out.ok \/ e.a.t = "odd" ELSE ~e.out.ok

NoiseCall(st, e) ==
  LET r == PyApply(st.m, e)
      open == "s" \in DOMAIN e /\ e.op # "who" /\ st.m.se[e.s].ph = "maybe" /\ r.ok /\ ~e.ok
      st1 == IF ~open THEN r.st
             ELSE [(IF e.op \in {"first", "send", "reply"} THEN Nothing(st.m) ELSE st.m) EXCEPT !.se[e.s].ph = "dead"]
      value ==
        CASE ~e.ok -> {}
          [] e.op = "recv" -> V(e.pt = st.m.ms[e.m].pt, "other plaintext than was sent")
          [] e.op = "who"  -> V(e.key = st.m.se[e.s].rk, "other key than the peer's")
          [] OTHER -> {}
  IN [st  |-> [st EXCEPT !.m = st1],
      bad |-> IF ~open /\ r.ok # e.ok THEN {<<"C26", (IF e.ok THEN "accepted: " ELSE "raised: ") \o e.op>>} ELSE value]

PStep(run, st, e) ==
  CASE e.op = "call" ->
         [st |-> IF e.f = "start_tp" /\ e.out.ok THEN [st EXCEPT !.msg0 = @ \cup {e.out.v.msg}] ELSE st,
          bad |-> V(Right(st, e.f, e.a, e.out), (IF e.out.ok THEN "wrong result or no exception: " ELSE "exception: ") \o e.f)]
    [] e.op = "tpcall" -> [st |-> st, bad |-> V(Session(st, e), (IF e.out.ok THEN "no exception: " ELSE "exception: ") \o e.f)]
    [] e.op = "tpend" ->
         LET s == TLCEval([k \in DOMAIN e.shares |-> <<Byte0(e.shares[k]), Cut(e.shares[k], 1, 32)>>])
             x == T!Reconstruct(SubSeq(s, 1, e.t))
             whole == \A k \in DOMAIN e.shares : BLen(e.shares[k]) = 33
         IN [st |-> st, bad |-> V(whole /\ Len(s) = e.n /\ T!IsSharing(s, e.t, x) /\ x # S0 /\ \A k \in DOMAIN s : s[k][1] = k, "shares of the session")]
    [] e.op = "cheaters" ->
         LET who == {e.who[k] : k \in DOMAIN e.who}
             set == {e.set[k] : k \in DOMAIN e.set}
         IN [st |-> st, bad |-> V(/\ e.raised
                                  /\ set \subseteq who
                                  /\ e.complaints < e.t * e.t => set = who      \* the session is given up when there are more
                                  /\ {e.list[k] : k \in DOMAIN e.list} = set
                                  /\ e.said = e.text, "cheaters")]
    [] e.op = "noise" -> NoiseCall(st, [e EXCEPT !.op = e.what])
    [] OTHER -> LET n == AStep(run, st.al, e) IN
                [st |-> [st EXCEPT !.al = n.st], bad |-> {<<"C26", b[2]>> : b \in n.bad}]
=============================================================================
