-------------------------------- MODULE Gen --------------------------------
(* Enumerates scenarios for the algebraic drivers into $OUT: all ordered      *)
(* quorums for small n, all interleavings of two exchanges.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Orders(k, m) == {f \in [1 .. m -> 1 .. k] : \A i, j \in 1 .. m : f[i] = f[j] => i = j}
Quorums(maxn) == UNION {UNION {UNION {{[kind |-> "quorum", n |-> n, t |-> t, q |-> f] : f \in Orders(n, m)} : m \in t .. n} : t \in 1 .. n} : n \in 1 .. maxn}
RECURSIVE Shuffle(_, _)
Shuffle(a, b) == IF a = <<>> THEN {b} ELSE IF b = <<>> THEN {a}
                 ELSE {<<Head(a)>> \o s : s \in Shuffle(Tail(a), b)} \cup {<<Head(b)>> \o s : s \in Shuffle(a, Tail(b))}
Steps(c) == << <<c, "blind">>, <<c, "eval">>, <<c, "unblind">>, <<c, "final">> >>
Inter == {[kind |-> "inter", steps |-> s] : s \in Shuffle(Steps(1), Steps(2))}
Subsets(n) == {[kind |-> "cheat", n |-> n, self |-> j, who |-> SetToSeq(s)] : j \in 1 .. n, s \in SUBSET (1 .. n)}
What == CASE IOEnv.GEN = "quorum4" -> Quorums(4)
          [] IOEnv.GEN = "quorum5" -> Quorums(5)
          [] IOEnv.GEN = "inter"   -> Inter
          [] IOEnv.GEN = "cheat4"  -> Subsets(3) \cup Subsets(4)
          [] IOEnv.GEN = "cheat5"  -> Subsets(3) \cup Subsets(4) \cup Subsets(5)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(What))
=============================================================================
