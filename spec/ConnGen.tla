------------------------------- MODULE ConnGen ------------------------------
(* Programs: a client, the servers that answer its attempts in turn, and a    *)
(* sequence of operations.  SIM=0: every client with every server and one     *)
(* sequence; SIM=1 (-simulate): random sequences.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, CSV, Json
Good == [speaks |-> "tls", ver |-> "1.3", issuer |-> "known", valid |-> "now", names |-> <<"name", "ip">>]
Names == {<<"name">>, <<"ip">>, <<>>, <<"name", "ip">>}
Servers == {[Good EXCEPT !.speaks = x] : x \in {"plain", "shut", "none"}}
      \cup [speaks : {"tls"}, ver : {"1.3", "1.2", "1.1"}, issuer : {"known", "chain", "nochain", "unknown", "self"}, valid : {"now", "past", "future"}, names : Names]
Clients == [type : {"", "SSL", "TCP", "UDP", "ssl"}, file : {"", "own", "other"}, host : {"name", "ip"}, mux : BOOLEAN]
Off(s) == Cardinality({x \in {"speaks", "ver", "issuer", "valid"} : s[x] # Good[x]}) + (IF s.names = Good.names THEN 0 ELSE 1)
Sim == IOEnv.SIM = "1"
R(S) == RandomElement(S)
VARIABLES cl, srv, ops, fin
Whole == <<"send", "read", "connect", "send", "read", "connect", "send", "close", "send", "read">>
Pick == IF R(1 .. 3) = 1 THEN R(Servers) ELSE R({s \in Servers : Off(s) <= 1})
Init == /\ fin = FALSE
        /\ IF Sim THEN /\ \E k \in 1 .. 1000 : cl \in {TLCEval(R(IF R(1 .. 3) = 1 THEN Clients ELSE {c \in Clients : c.type \in {"", "SSL"} /\ c.file = ""}))}
                       /\ \E m \in {TLCEval(R(1 .. 4))} : srv \in {TLCEval([k \in 1 .. m |-> Pick])}
                       /\ ops = <<>>
           ELSE cl \in Clients /\ srv \in {<<s>> : s \in Servers} /\ ops = Whole
Ops == {"connect", "send", "read", "close", "hangup"}
Next == /\ ~fin
        /\ IF Sim /\ Len(ops) < 9
           THEN \E o \in {TLCEval(R(IF R(1 .. 3) = 1 THEN {"connect"} ELSE Ops))} : ops' = Append(ops, o) /\ UNCHANGED <<cl, srv, fin>>
           ELSE CSVWrite("%1$s", <<ToJson([client |-> cl, servers |-> srv, ops |-> ops, off |-> Off(srv[1])])>>, IOEnv.OUT) /\ fin' = TRUE /\ UNCHANGED <<cl, srv, ops>>
=============================================================================
