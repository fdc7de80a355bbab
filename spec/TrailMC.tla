------------------------------- MODULE TrailMC -------------------------------
(* Calls that copy their secrets to cells of their own memory in any order,   *)
(* fail at any point and on either way out clear the cells they used; somebody*)
(* who reads all memory between the calls finds no secret.  Interleaved with  *)
(* the life of a peer, which may be abandoned anywhere.                       *)
EXTENDS Trail, FiniteSets
CONSTANTS Cells
VARIABLES call, mem, ways, peer, seen
vars == <<call, mem, ways, peer, seen>>
None == "none"
Init == call = None /\ mem = [c \in Cells |-> None] /\ ways = 0 /\ peer = [key |-> TRUE, signed |-> FALSE] /\ seen = {}
Begin == call = None /\ call' \in Calls /\ ways' = Cardinality(Cells) + 1 /\ UNCHANGED <<mem, peer, seen>>
Copy == /\ call # None /\ ways > 0 /\ ways' = ways - 1
        /\ \E c \in Cells, s \in Secrets(call) : mem' = [mem EXCEPT ![c] = s]
        /\ UNCHANGED <<call, peer, seen>>
Leave == call # None /\ call' = None /\ mem' = [c \in Cells |-> None] /\ ways' = 0 /\ UNCHANGED <<peer, seen>>
Sign == call = None /\ ~peer.signed /\ peer.key /\ peer' = [key |-> FALSE, signed |-> TRUE] /\ UNCHANGED <<call, mem, ways, seen>>
Restart == call = None /\ peer' = [key |-> TRUE, signed |-> FALSE] /\ UNCHANGED <<call, mem, ways, seen>>
Read == call = None /\ seen' = seen \cup {mem[c] : c \in Cells} \cup (IF peer.key /\ peer.signed THEN {"long-term key"} ELSE {}) /\ UNCHANGED <<call, mem, ways, peer>>
Next == Begin \/ Copy \/ Leave \/ Sign \/ Restart \/ Read
Spec == Init /\ [][Next]_vars
Nothing == seen \subseteq {None}
Clean == call = None => \A k \in Calls : Gone(k, {mem[c] : c \in Cells})
Key == Holds(peer.signed, peer.key)
=============================================================================
