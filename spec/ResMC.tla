-------------------------------- MODULE ResMC -------------------------------
(* A call that acquires and gives back in any order, with any request refused *)
(* and any input invalid, which on the way out gives back what it holds and   *)
(* reports failure if it could not do its work: it satisfies Res wherever it  *)
(* ends.  Objects that outlive a call take over what it holds, until they are *)
(* released.                                                                  *)
EXTENDS Res, FiniteSets
CONSTANTS Most
VARIABLES at, mine, objs, failed, work
vars == <<at, mine, objs, failed, work>>
(* mine: held by the call, objs: by each object, work: what the call has yet to do *)
Needs == {"mem", "lock"}
Zero == [k \in Needs |-> 0]
Init == at = "idle" /\ mine = Zero /\ objs = <<>> /\ failed = FALSE /\ work = 0
Begin == at = "idle" /\ at' = "in" /\ work' \in 0 .. Most /\ failed' = FALSE /\ UNCHANGED <<mine, objs>>
Take == /\ at = "in" /\ work > 0 /\ work' = work - 1
        /\ \/ \E k \in Needs : mine' = [mine EXCEPT ![k] = @ + 1] /\ UNCHANGED <<at, failed>>
           \/ at' = "out" /\ failed' = TRUE /\ UNCHANGED mine             \* refused, or input invalid
        /\ UNCHANGED objs
Give == at = "in" /\ \E k \in Needs : mine[k] > 0 /\ mine' = [mine EXCEPT ![k] = @ - 1] /\ UNCHANGED <<at, objs, failed, work>>
Done == at = "in" /\ work = 0 /\ at' = "out" /\ UNCHANGED <<mine, objs, failed, work>>
(* the way out: the memory may go to a new object, the locks may not *)
Leave == /\ at = "out" /\ at' = "idle" /\ work' = 0 /\ mine' = Zero /\ UNCHANGED failed
         /\ \/ UNCHANGED objs
            \/ ~failed /\ Len(objs) < 2 /\ objs' = Append(objs, mine["mem"])
Release == at = "idle" /\ objs # <<>> /\ objs' = Tail(objs) /\ UNCHANGED <<at, mine, failed, work>>
Next == Begin \/ Take \/ Give \/ Done \/ Leave \/ Release
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Left == <<mine["mem"] + Sum(objs), mine["lock"]>>
Clean == at = "idle" /\ objs = <<>> => GivenBack(Left)
Owned == at = "idle" => GivenBack(<<Left[1] - Sum(objs), Left[2]>>)
Truth == at = "idle" => Honest([ok |-> ~failed, same |-> ~failed])
=============================================================================
