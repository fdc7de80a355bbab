------------------------------- MODULE MuxGen ------------------------------
(* Schedules for collecting: what the peers do, interleaved with calls.      *)
(* Peers write units of messages that have two units each:                   *)
(*   1, 2, 3  that many units of wanted messages, in one piece               *)
(*   F        a report of failure, in place of a message                     *)
(*   X        a message the caller does not want                             *)
(*   C, E, R  close, close without the farewell of TLS, reset                *)
(* Exhaustive (SIM=0): two peers, one call; all interleavings.  With         *)
(* -simulate (SIM=1): up to four peers, three calls.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, CSV, Json

Sim == IOEnv.SIM = "1"
VARIABLES left,      \* what each peer is still to do
          calls,     \* numbers of answers asked for in the calls still to come
          six,       \* messages have the size of a report of failure
          hist

Scripts == {<<>>, <<"1">>, <<"2">>, <<"1", "1">>, <<"3", "1">>, <<"1", "3">>, <<"C">>, <<"E">>, <<"1", "C">>, <<"1", "E">>, <<"2", "C">>, <<"1", "1", "C">>,
            <<"3", "C">>, <<"1", "R">>, <<"2", "R">>, <<"F", "C">>, <<"X", "2">>, <<"X", "1", "1">>, <<"X", "C">>}
SixScripts == {<<"F">>, <<"F", "2">>, <<"2">>, <<"1", "1">>, <<"F", "C">>}
R(S) == RandomElement(S)
(* random scripts: F and X only between messages *)
RECURSIVE Rnd(_, _, _)
Rnd(k, odd, f) ==
  IF k = 0 THEN <<>>
  ELSE LET x == R(IF odd THEN {<<1, "1">>, <<2, "1">>, <<3, "1">>, <<4, "2">>, <<5, "3">>, <<6, "1">>, <<7, "C">>, <<8, "E">>}
                  ELSE {<<1, "1">>, <<2, "1">>, <<3, "1">>, <<4, "2">>, <<5, "2">>, <<6, "3">>, <<7, "2">>, <<8, "X">>, <<9, "F">>, <<10, "C">>, <<11, "R">>, <<12, "2">>})[2]
           y == IF x = "F" /\ ~f THEN "2" ELSE x
       IN IF y \in {"C", "E", "R"} THEN (IF R({TRUE, FALSE}) THEN <<y>> ELSE Rnd(k - 1, odd, f))
          ELSE <<y>> \o Rnd(k - 1, odd # (y \in {"1", "3"}), f)
Init == /\ hist = <<>>
        /\ IF Sim
           THEN \E k \in 1 .. 800 : \E p \in {TLCEval(R(2 .. 4))} :
                \E s \in {TLCEval(R({TRUE, FALSE}))} :
                  /\ six = s
                  /\ left = TLCEval([i \in 1 .. p |-> Rnd(R(1 .. 6), FALSE, s)])
                  /\ calls = TLCEval([i \in 1 .. R(1 .. 3) |-> R(IF R(1 .. 3) = 1 THEN {p} ELSE 1 .. p)])
           ELSE /\ six \in BOOLEAN
                /\ left \in (IF six THEN [1 .. 2 -> SixScripts] ELSE {f \in [1 .. 2 -> Scripts] : TRUE})
                /\ calls \in {<<1>>, <<2>>}
Done == calls = <<>> /\ \A p \in DOMAIN left : left[p] = <<>>
Do(o, l, c) == hist' = Append(hist, o) /\ left' = l /\ calls' = c /\ UNCHANGED six
Peer(p) == left[p] # <<>> /\ Do([p |-> p, do |-> Head(left[p])], [left EXCEPT ![p] = Tail(@)], calls)
Call == calls # <<>> /\ Do([p |-> 0, do |-> ToString(Head(calls))], left, Tail(calls))
Able == {p \in DOMAIN left : left[p] # <<>>} \cup (IF calls # <<>> THEN {0} ELSE {})
Next == IF hist # <<>> /\ hist[Len(hist)].p < 0 THEN FALSE
        ELSE IF Done THEN /\ CSVWrite("%1$s", <<ToJson([peers |-> Len(left), six |-> six, steps |-> hist])>>, IOEnv.OUT)
                          /\ Do([p |-> -1, do |-> ""], left, calls)
        ELSE IF Sim THEN \E w \in {TLCEval(R(Able))} : IF w = 0 THEN Call ELSE Peer(w)
        ELSE Call \/ \E p \in DOMAIN left : Peer(p)
=============================================================================
