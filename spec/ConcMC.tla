------------------------------- MODULE ConcMC -------------------------------
(* Two calls that may have memory in common, in all interleavings of their    *)
(* steps.  A step writes a cell (w), reads it (r), updates it depending on    *)
(* its old value (u) or initialises it unless that was done (i); what a call  *)
(* yields is what it has read.                                                *)
(*   Separate   calls without common cells always yield what they yield alone *)
(*   OneSwitch  whatever interference there is, it shows already in a         *)
(*              schedule that interrupts one call once and lets the other one *)
(*              run to its end meanwhile                                      *)
(* The second justifies the schedules that are imposed on the code.           *)
EXTENDS Conc, FiniteSets, TLC, IOUtils
N == CASE IOEnv.N = "2" -> 2 [] IOEnv.N = "3" -> 3 [] IOEnv.N = "4" -> 4
Cells == IF IOEnv.CELLS = "1" THEN {1} ELSE {1, 2}
Ops == {"w", "r", "u", "i"} \X Cells
T == {1, 2}
VARIABLES prog, pc, mem, got
vars == <<prog, pc, mem, got>>
Zero == [c \in Cells |-> <<>>]
Write(m, t, o, k) ==
  CASE o[1] = "w" -> [m EXCEPT ![o[2]] = <<t, k>>]
    [] o[1] = "u" -> [m EXCEPT ![o[2]] = @ \o <<t>>]
    [] o[1] = "i" -> IF m[o[2]] = <<>> THEN [m EXCEPT ![o[2]] = <<0>>] ELSE m
    [] OTHER -> m
(* executes steps from .. to of thread t *)
RECURSIVE Exec(_, _, _, _)
Exec(s, t, from, to) ==      \* s = [m, g]
  IF from > to THEN s
  ELSE LET o == prog[t][from] IN
       Exec([m |-> Write(s.m, t, o, from), g |-> IF o[1] = "r" THEN [s.g EXCEPT ![t] = Append(@, s.m[o[2]])] ELSE s.g], t, from + 1, to)
Nothing == [m |-> Zero, g |-> [t \in T |-> <<>>]]
Alone(t) == Exec(Nothing, t, 1, Len(prog[t])).g[t]
(* t interrupted once, after k steps *)
Once(t, k) == LET u == 3 - t
                  a == Exec(Nothing, t, 1, k)
                  b == Exec(a, u, 1, Len(prog[u]))
              IN Exec(b, t, k + 1, Len(prog[t])).g
Shows == \E t \in T : \E k \in 0 .. Len(prog[t]) : \E u \in T : Once(t, k)[u] # Alone(u)
Init == /\ prog \in [T -> [1 .. N -> Ops]]
        /\ pc = [t \in T |-> 0]
        /\ mem = Zero
        /\ got = [t \in T |-> <<>>]
Step(t) == /\ pc[t] < Len(prog[t])
           /\ LET r == Exec([m |-> mem, g |-> got], t, pc[t] + 1, pc[t] + 1)
              IN mem' = r.m /\ got' = r.g
           /\ pc' = [pc EXCEPT ![t] = @ + 1]
           /\ UNCHANGED prog
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars
Touched(t) == {prog[t][k][2] : k \in 1 .. Len(prog[t])}
Ended == \A t \in T : pc[t] = Len(prog[t])
Lone == [t \in T |-> Alone(t)]
Fine == Independent(got, Lone)
Separate == Touched(1) \cap Touched(2) = {} => Compatible(got, Lone) /\ (Ended => Fine)
OneSwitch == Ended /\ ~Fine => Shows
=============================================================================
