------------------------------- MODULE ConnMC -------------------------------
(* All lives of a connection to servers that the adversary chooses anew for   *)
(* every attempt.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, Naturals
C == INSTANCE Conn
Servers == [speaks : {"plain", "shut", "none"}, ver : {"1.3"}, issuer : {"known"}, valid : {"now"}, names : {{"name"}}]
      \cup [speaks : {"tls"}, ver : {"1.3", "1.2", "1.1"}, issuer : {"known", "chain", "nochain", "unknown", "self"}, valid : {"now", "past", "future"},
            names : {{"name"}, {"ip"}, {}, {"name", "ip"}}]
Clients == [type : {"", "SSL", "TCP", "UDP", "ssl"}, file : {"", "own", "other"}, host : {"name", "ip"}]
VARIABLES cl, srv, st, gone, told, n
vars == <<cl, srv, st, gone, told, n>>
NoOne == [speaks |-> "none", ver |-> "1.3", issuer |-> "known", valid |-> "now", names |-> {}]
Init == cl \in Clients /\ srv = NoOne /\ st = C!Fresh /\ gone = FALSE /\ told = {} /\ n = 0
Try == \E s \in Servers : \E r \in C!Connect(st, cl, s) :
          /\ st' = r[2] /\ n' = n + 1 /\ srv' = (IF st.at = "up" THEN srv ELSE s) /\ gone' = (IF st.at = "up" THEN gone ELSE FALSE) /\ UNCHANGED <<cl, told>>
Say == \E r \in C!Send(st, gone) : st' = r[2] /\ told' = (IF r[1] THEN told \cup {srv} ELSE told) /\ n' = n + 1 /\ UNCHANGED <<cl, srv, gone>>
Hear == \E short \in BOOLEAN : \E r \in C!Read(st, gone, short) : st' = r[2] /\ n' = n + 1 /\ UNCHANGED <<cl, srv, gone, told>>
End == ~gone /\ st.at = "up" /\ gone' = TRUE /\ n' = n + 1 /\ UNCHANGED <<cl, srv, st, told>>
Shut == \E r \in C!Close(st) : st' = r[2] /\ n' = n + 1 /\ UNCHANGED <<cl, srv, gone, told>>
Next == n < 3 /\ (Try \/ Say \/ Hear \/ End \/ Shut)
Spec == Init /\ [][Next]_vars
(* nothing is told to a server that is not who it should be *)
Private == \A s \in told : C!Verdict(cl, s) # "no"
Genuine == (C!Kind(cl) = "SSL" /\ cl.file = "") => \A s \in told : s.speaks = "tls" /\ C!Recent(s) /\ s.issuer \in {"known", "chain"} /\ s.valid = "now" /\ cl.host \in s.names
Unknown == C!Kind(cl) \notin {"SSL", "TCP"} => st.at # "up"
=============================================================================
