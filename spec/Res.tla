--------------------------------- MODULE Res --------------------------------
(* What calls may keep.  Memory and locks are counted; a call acquires them   *)
(* one by one, and any lock may be refused.                                   *)
(*   left    what is held more after the call (or the life of an object) than *)
(*           before: <<blocks of memory, locked bytes>>                       *)
(*   faults  the same call with its k-th lock refused                         *)
EXTENDS Integers, Sequences
GivenBack(left) == left[1] <= 0 /\ left[2] <= 0
(* a call that was refused a lock fails or yields the right result *)
Honest(f) == ~f.ok \/ f.same
=============================================================================
