----------------------------- MODULE NoiseTrace ----------------------------
(* Conformance of the secure channel with NoiseXK.  Every event carries the   *)
(* operation, its result and what the interface shows afterwards.             *)
EXTENDS TraceBase, NoiseXK, Wire

(* hash: pairs <<transcript, session hash>>; sids: session identifiers per device; raw: stored secrets *)
NStart(run) == [m |-> St0, hash |-> {}, sids |-> {}, raw |-> {}]

(* ---------------------------------------------------------------- registry *)
Row(p) == <<p.id, p.key, p.name>>
RegBad(d, e) ==
  Viol("C25", \A i \in DOMAIN e.byid : e.byid[i].r = Row(ById(d, e.byid[i].q)), "lookup by identifier")
  \cup Viol("C25", \A i \in DOMAIN e.bykey : e.bykey[i].r = Row(ByKey(d, e.bykey[i].q)), "lookup by key")
  \cup Viol("C25", e.own = <<d.key, d.name>>, "the device's own key or name")
  \cup Viol("C25", e.sat = <<d.next = LastId, d.left = 0>>, "exhausted identifiers not reported")

(* a stored secret does not show the key, and storing it twice does not give the same bytes *)
Stored(st, e) ==
  IF e.op \notin {"save", "savedev"} \/ ~e.ok THEN {}
  ELSE Viol("C25", ~BHas(e.raw, e.hide), "stored secret readable") \cup Viol("C25", e.raw \notin st.raw, "stored secret repeats")

(* ---------------------------------------------------------------- sessions *)
(* e.v: status (0 reads next, 1 writes next, 2 transport), highest level reached, peer id, name, hash, identifier *)
SeenBad(st, s, v) ==
  IF s.ph \in {"dead", "maybe"} THEN {}
  ELSE Viol("C24", v.status = (IF s.ph = "tr" THEN 2 ELSE IF Writes(s) THEN 1 ELSE 0), "session status")
       \cup Viol("C24", v.max = (s.ph = "tr" /\ (s.role = "R" \/ s.heard)), "highest security reached")
       \cup (IF s.role = "I" \/ s.ph = "tr" THEN Viol("C24", v.pid = s.pid /\ (s.pid # 0 => v.pname = s.pname), "identity of the other end") ELSE {})
       \cup (IF s.ph # "tr" THEN {} ELSE
             Viol("C24", \A x \in st.hash : (x[1] = s.h) = (x[2] = v.hash), "session hash"))
Note(st, s, v) == IF s.ph = "tr" THEN st.hash \cup {<<s.h, v.hash>>} ELSE st.hash

PropOf(s) == IF s.ph = "tr" THEN "C23" ELSE "C24"
Session(st, e) ==
  LET s0 == st.m.se[e.s]
      r  == Apply(st.m, e)
      lost == s0.ph = "maybe" /\ r.ok /\ ~e.ok          \* it had ended
      m1 == IF lost THEN [(IF e.op = "write" THEN [st.m EXCEPT !.ms = Append(@, NoMessage)] ELSE st.m) EXCEPT !.se[e.s].ph = "dead"]
            ELSE r.st
      s1 == m1.se[e.s]
      p  == PropOf(s0)
      agree == lost \/ r.ok = e.ok
      payload ==
        IF e.op # "read" \/ ~e.ok \/ ~r.ok THEN {}
        ELSE LET m == st.m.ms[e.m] lv == AuthLevel(s0) IN
             Viol(p, e.len = m.len /\ e.pt = m.pt, "other plaintext than was sent")
             \cup Viol("C24", \A a \in 0 .. 3 : e.unp[a + 1] = (m.len = 0 \/ a <= lv), "payload released at a level that was not reached")
             \cup Viol(p, \A a \in 0 .. 3 : e.unp[a + 1] => e.same[a + 1], "released payload differs")
  IN [st  |-> [st EXCEPT !.m = m1, !.hash = Note(st, s1, e.v)],
      bad |-> IF ~agree
              THEN {<<p, (IF e.ok THEN "accepted: " ELSE "refused: ") \o e.op>>}
              ELSE payload \cup SeenBad(st, s1, e.v) \cup Viol(p, e.clean, "failed call left a result")]

(* ---------------------------------------------------------------- events *)
NStep(run, st, e) ==
  IF e.op \in {"read", "write"} THEN Session(st, e)
  ELSE IF e.op \in {"jump", "wane"} THEN [st |-> IF e.ok THEN [st EXCEPT !.m = Apply(st.m, e).st] ELSE st, bad |-> {}]     \* the counters may be out of reach
  ELSE IF e.op = "burst" THEN [st |-> [st EXCEPT !.m = Apply(st.m, e).st], bad |-> Viol("C23", e.ok, "message in order refused or changed")]
  ELSE LET r == Apply(st.m, e)
           st1 == [st EXCEPT !.m = r.st]
           p == IF e.op \in {"init", "resp"} /\ st.m.dv[e.d].left # 0 THEN "C24" ELSE "C25"
           same == Viol(p, r.ok = e.ok, (IF e.ok THEN "accepted: " ELSE "refused: ") \o e.op) IN
  CASE e.op \in {"init", "resp"} ->
         LET s == r.st.se[Len(r.st.se)] IN
         [st |-> IF e.ok THEN [st1 EXCEPT !.sids = @ \cup {<<e.d, e.v.sid>>}] ELSE st1,
          bad |-> same \cup (IF e.ok /\ r.ok THEN SeenBad(st, s, e.v) \cup Viol("C25", <<e.d, e.v.sid>> \notin st.sids, "session identifier reused") ELSE {})]
    [] e.op \in {"dev", "loaddev"} -> [st |-> st1, bad |-> same \cup (IF e.ok /\ r.ok THEN RegBad(r.st.dv[Len(r.st.dv)], e) ELSE {})]
    [] OTHER -> [st |-> IF e.op \in {"save", "savedev"} /\ e.ok THEN [st1 EXCEPT !.raw = @ \cup {e.raw}] ELSE st1,
                  bad |-> same \cup Viol("C25", e.op \in {"add", "load"} => e.id = r.id, "identifier")
                                          \cup Stored(st, e) \cup RegBad(r.st.dv[e.d], e)]
=============================================================================
