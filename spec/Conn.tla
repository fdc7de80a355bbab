-------------------------------- MODULE Conn --------------------------------
(* The connection to one peer, over its life: to whom it is made, and what    *)
(* may be sent and read in each of its states.                                *)
(*   client  [type |-> "" (default), "SSL", "TCP" or anything else,           *)
(*            file |-> "" or whose certificate the given file holds,          *)
(*            host |-> name under which the peer is configured]               *)
(*   server  [speaks |-> "tls", "plain", "shut" (closes at once), "none",     *)
(*            ver |-> highest version of TLS, issuer, valid, names]           *)
EXTENDS Integers, Sequences, FiniteSets

Kind(c) == IF c.type = "" THEN "SSL" ELSE c.type
Recent(s) == s.ver \in {"1.2", "1.3"}
Trusted(s, c) == s.issuer \in {"known", "chain"} /\ s.valid = "now" /\ c.host \in s.names

(* whether the connection has to come about *)
Verdict(c, s) ==
  CASE Kind(c) \notin {"SSL", "TCP"} -> "no"
    [] s.speaks = "none" -> "no"
    [] Kind(c) = "TCP" -> IF s.speaks = "shut" THEN "any" ELSE "yes"
    [] s.speaks # "tls" -> "no"
    [] ~Recent(s) -> "no"
    [] c.file = "" -> IF Trusted(s, c) THEN "yes" ELSE "no"
    [] c.file = "own" /\ s.issuer = "self" /\ s.valid = "now" /\ c.host \in s.names -> "yes"
    [] OTHER -> "any"
(* whether what is sent can be read on the way *)
Clear(c) == Kind(c) = "TCP"

(* states: "new", "up", "left" (the other side has ended it and this was      *)
(* noticed), "broken" (it may have been), "down" (could not be made), "closed" *)
Fresh == [at |-> "new"]
(* each operation: the set of <<succeeds, successor>>                          *)
Connect(st, c, s) ==
  IF st.at = "up" THEN {<<FALSE, st>>}
  ELSE (IF st.at = "broken" THEN {<<FALSE, st>>} ELSE {}) \cup LET v == Verdict(c, s) IN
         (IF v # "no" THEN {<<TRUE, [at |-> "up"]>>} ELSE {})
    \cup (IF v # "yes" THEN {<<FALSE, IF st.at \in {"left", "broken"} THEN st ELSE [at |-> "down"]>>} ELSE {})
(* gone: the other side has ended the connection, which need not be known yet *)
Send(st, gone) ==
  CASE st.at = "up" /\ ~gone -> {<<TRUE, st>>}
    [] st.at \in {"up", "left", "broken"} -> {<<TRUE, st>>, <<FALSE, st>>}
    [] OTHER -> {<<FALSE, st>>}
(* what a successful read yields is what the other side has sent, less only at the end *)
Read(st, gone, short) ==
  CASE st.at = "up" /\ ~short -> {<<TRUE, st>>}
    [] st.at = "up" /\ short /\ gone -> {<<TRUE, [at |-> "left"]>>, <<FALSE, [at |-> "broken"]>>}
    [] st.at = "up" -> {}
    [] st.at \in {"left", "broken"} /\ short -> {<<TRUE, [at |-> "left"]>>, <<FALSE, st>>}
    [] OTHER -> {<<FALSE, st>>}
Close(st) == {<<TRUE, [at |-> "closed"]>>}
=============================================================================
