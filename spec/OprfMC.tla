------------------------------ MODULE OprfMC -------------------------------
(* Concurrent OPRF exchanges over a small group: clients interleave freely,   *)
(* a network adversary may replace the elements in transit by malformed or    *)
(* identity elements.  History kept so that behaviours can be replayed.       *)
EXTENDS Zq, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Clients, Keys, Adversary
VARIABLES pc, x, rr, al, be, out, kid, hist
vars == <<pc, x, rr, al, be, out, kid, hist>>
Bad == {-1, 0}            \* -1: not an element; 0: identity
H(v) == v                 \* hash of input v (inputs are 1..Q-1)
MulC(s, p) == IF p = -1 \/ ZMul(s, p) = 0 THEN -2 ELSE ZMul(s, p)   \* -2: refused
Log(c, a, b) == hist' = Append(hist, <<c, a, b>>)
Init == /\ pc = [c \in Clients |-> "start"] /\ x = [c \in Clients |-> 0] /\ rr = x /\ al = x /\ be = x /\ out = x
        /\ kid \in [Clients -> Keys] /\ hist = <<>>
Blind(c) == /\ pc[c] = "start"
            /\ \E v \in {1, 2}, r \in {2, 3} : x' = [x EXCEPT ![c] = v] /\ rr' = [rr EXCEPT ![c] = r] /\ al' = [al EXCEPT ![c] = MulC(r, H(v))]
            /\ pc' = [pc EXCEPT ![c] = "blinded"] /\ UNCHANGED <<be, out, kid>> /\ Log(c, "blind", 0)
Eval(c) == /\ pc[c] = "blinded"
           /\ \E m \in {al[c]} \cup (IF Adversary THEN Bad ELSE {}) :
                /\ be' = [be EXCEPT ![c] = MulC(kid[c], m)]
                /\ pc' = [pc EXCEPT ![c] = IF MulC(kid[c], m) = -2 THEN "failed" ELSE "evaluated"]
                /\ Log(c, "eval", IF m = al[c] THEN 0 ELSE m - 1)
           /\ UNCHANGED <<x, rr, al, out, kid>>
Unblind(c) == /\ pc[c] = "evaluated"
              /\ \E m \in {be[c]} \cup (IF Adversary THEN Bad ELSE {}) :
                   /\ out' = [out EXCEPT ![c] = MulC(ZInv(rr[c]), m)]
                   /\ pc' = [pc EXCEPT ![c] = IF MulC(ZInv(rr[c]), m) = -2 THEN "failed" ELSE "done"]
                   /\ Log(c, "unblind", IF m = be[c] THEN 0 ELSE m - 1)
              /\ UNCHANGED <<x, rr, al, be, kid>>
Next == \E c \in Clients : Blind(c) \/ Eval(c) \/ Unblind(c)
Correct == \A c \in Clients : pc[c] = "done" => out[c] = ZMul(kid[c], H(x[c]))
Done == \A c \in Clients : pc[c] \in {"done", "failed"}
View == <<pc, x, rr, al, be, out, kid>>
=============================================================================
