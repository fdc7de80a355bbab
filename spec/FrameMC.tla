------------------------------- MODULE FrameMC ------------------------------
(* A client that keeps its variables somewhere in memory and applies calls to *)
(* them.  Two such clients, with different layouts and different garbage in   *)
(* memory, run the same program.  If every call keeps to its frame, both see  *)
(* the same values in every variable they have set, whatever the program.     *)
(* Loose = TRUE lets a call also touch one cell next to its output: then they *)
(* differ (expected to fail, run by hand).                                    *)
EXTENDS Integers, FiniteSets, IOUtils
CONSTANTS Vars, Cells, Loose
Vals == 0 .. 1
VARIABLES lay, mem, set
vars == <<lay, mem, set>>
Layouts == {l \in [Vars -> Cells] : \A v, w \in Vars : v # w => l[v] # l[w]}
First == CHOOSE l \in Layouts : TRUE
Init == /\ lay \in {l \in [1 .. 2 -> Layouts] : l[1] = First} \* up to renaming of the cells
        /\ mem \in [1 .. 2 -> [Cells -> Vals]] /\ set = {}
Const(v, x) == /\ mem' = [c \in 1 .. 2 |-> [mem[c] EXCEPT ![lay[c][v]] = x]]
               /\ set' = set \cup {v} /\ UNCHANGED lay
(* a call with two inputs and one output, computing any function *)
Call(f, a, b, o) ==
  /\ {a, b} \subseteq set /\ o \notin {a, b}
  /\ LET w(c) == [mem[c] EXCEPT ![lay[c][o]] = f[mem[c][lay[c][a]], mem[c][lay[c][b]]]]
         u(c) == (lay[c][o] + 1) % Cardinality(Cells)
     IN mem' = [c \in 1 .. 2 |-> IF Loose THEN [w(c) EXCEPT ![u(c)] = 0] ELSE w(c)]
  /\ set' = set \cup {o} /\ UNCHANGED lay
Next == \/ \E v \in Vars, x \in Vals : Const(v, x)
        \/ \E f \in [Vals \X Vals -> Vals], a, b, o \in Vars : Call(f, a, b, o)
Spec == Init /\ [][Next]_vars
Value(c, v) == mem[c][lay[c][v]]
Agree == \A v \in set : Value(1, v) = Value(2, v)
=============================================================================
