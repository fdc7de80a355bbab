----------------------------- MODULE TpPlanGen -----------------------------
(* Writes the deviations of TpPlan for the drivers to $OUT.                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
Env(x) == atoi(x)
P == INSTANCE TpPlan WITH N <- Env(IOEnv.N), T <- Env(IOEnv.T), Eps <- Env(IOEnv.EPS),
                          Who <- IF Env(IOEnv.N) < 6 THEN 1 .. Env(IOEnv.N) ELSE {1, 2, Env(IOEnv.A), Env(IOEnv.N)}
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
One(k, s) == {[kind |-> k, devs |-> <<d>>] : d \in s}
Many(k, s) == {[kind |-> k, devs |-> d] : d \in s}
ASSUME ndJsonSerialize(IOEnv.OUT,
    SetToSeq(One("flip", P!FlipTp \cup P!FlipPeer \cup P!FlipInner)) \o SetToSeq(One("hdr", P!HdrTp \cup P!HdrPeer \cup P!HdrRelay))
    \o SetToSeq(One("sub", P!SubTp \cup P!SubPeer)) \o SetToSeq(One("keys", P!Keys4)) \o SetToSeq(One("commit", P!Commit12))
    \o SetToSeq(One("share", P!Share14)) \o SetToSeq(One("list", P!List16)) \o SetToSeq(One("digest", P!Dig20)) \o SetToSeq(One("ack", P!Ack22))
    \o SetToSeq(One("announce", P!Ann21)) \o SetToSeq(One("index", P!Index2)) \o SetToSeq(One("first", P!First0)) \o SetToSeq(One("equiv", P!Equiv))
    \o SetToSeq(Many("resolve", P!Cases17)) \o SetToSeq(One("junk", P!Junk))
    \o SetToSeq(Many("accuse", P!False2)) \o (IF Env(IOEnv.N) < 5 THEN SetToSeq(Many("accuse3", P!False3 \ P!False2)) ELSE <<>>) \o SetToSeq(Many("several", P!Several)) \o SetToSeq(Many("mass", P!Mass)))
=============================================================================
