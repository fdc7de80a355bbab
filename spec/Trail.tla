-------------------------------- MODULE Trail --------------------------------
(* What stays behind in memory.  Every call draws or derives secrets, from    *)
(* the input of the user or from shares it is given.  Where it returns them   *)
(* is its caller's memory; the memory that only the call itself used must not *)
(* hold a copy of any of them, nor of the input, once it has returned.        *)
EXTENDS Integers, Sequences

Secrets(call) ==
  CASE call = "expand"         -> {"input", "expanded"}
    [] call = "hash"           -> {"input", "expanded"}
    [] call = "blind"          -> {"input", "expanded", "hashed", "factor"}
    [] call = "unblind"        -> {"inverse"}
    [] call = "finalize"       -> {"input"}
    [] call = "deal"           -> {"coefficients"}
    [] call = "share"          -> {"coefficients"}
    [] call = "evaluate share" -> {"weighted"}
    [] call = "multiply"       -> {"product", "coefficients"}
    [] OTHER                   -> {"key"}
Calls == {"expand", "hash", "blind", "unblind", "finalize", "deal", "share", "evaluate share", "multiply"}

(* what is found after the call *)
Gone(call, left) == left \cap Secrets(call) = {}

(* A peer's long-term key: held until the message that carries the session    *)
(* keys (number 2) is signed with it, then never again.                       *)
SessionKeys == 2
Signed(before, ok, msgno) == before \/ (ok /\ msgno = SessionKeys)
Holds(signed, holds) == signed => ~holds
=============================================================================
