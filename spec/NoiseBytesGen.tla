---------------------------- MODULE NoiseBytesGen --------------------------
(* Runs of the library against a reference party that follows the pattern or *)
(* deviates from it in one message.  role: role of the library; at: message  *)
(* in which the reference deviates (1, 2, 3; 4: transport); len: payload     *)
(* lengths of the messages; pro: length of the prologue.                     *)
EXTENDS Integers, Sequences, IOUtils, Json, TLC
VARIABLE done
Deviations(role) ==
  {<<0, "none">>, <<1, "prologue">>}
  \cup {<<4, d>> : d \in {"nonce", "key", "ad", "cut", "empty", "old"}}
  \cup (IF role = "R"
        THEN {<<1, d>> : d \in {"rs", "low0", "low1", "low2", "low3", "high", "nomix", "nonce", "noad", "nohash", "cut"}}
             \cup {<<3, d>> : d \in {"snonce", "claim", "unreg", "near", "nomix", "noad", "nonce", "nohash", "stale", "other", "high", "cut"}}
        ELSE {<<2, d>> : d \in {"low0", "low1", "low2", "low3", "high", "nomix", "nonce", "noad", "nohash", "static", "stale", "cut"}})
Sizes == <<0, 1, 31, 32, 33, 63, 64, 65, 112, 127, 128, 129, 300>>
Size(k) == Sizes[(k % Len(Sizes)) + 1]
(* every deviation, with several sizes; every size without deviation *)
Plans ==
  UNION {{[role |-> r, at |-> d[1], dev |-> d[2], len |-> <<Size(k), Size(3 * k + 1), Size(5 * k + 2), Size(7 * k + 3)>>, pro |-> Size(k + 4)]
          : d \in Deviations(r), k \in 0 .. 3} : r \in {"I", "R"}}
  \cup {[role |-> r, at |-> 0, dev |-> "none", len |-> <<Size(k), Size(k + j), Size(k + 2 * j), Size(j)>>, pro |-> Size(k + 3 * j)]
        : r \in {"I", "R"}, k \in 0 .. 12, j \in 0 .. 12}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Init == done = FALSE
Next == ~done /\ ndJsonSerialize(IOEnv.OUT, ToSeq(Plans)) /\ done' = TRUE
=============================================================================
