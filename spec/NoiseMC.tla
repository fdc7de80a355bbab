------------------------------ MODULE NoiseMC ------------------------------
(* All behaviours of a few channel sessions on three devices, the network     *)
(* being in the hands of an adversary who keeps every message, delivers any   *)
(* of them to any session, as often as it likes, altered or not.  The         *)
(* configuration (prologues, expected keys, registrations) is chosen at the   *)
(* start; registrations also change while handshakes are under way.           *)
EXTENDS NoiseXK, IOUtils

MaxMs == atoi(IOEnv.MS)              \* messages written
Kinds == IF IOEnv.WHAT = "two" THEN {<<"init", "resp">>} ELSE
         IF IOEnv.WHAT = "twin" THEN {<<"init", "resp", "resp">>, <<"init", "init", "resp">>}
         ELSE {<<"init", "resp", "cross">>}

VARIABLES st, got, cfg

Ops0(c) ==     \* devices 1 (initiator), 2 (responder), 3 (a third party)
  LET dv == << [op |-> "dev", key |-> 1, pro |-> 1, sk |-> 1, name |-> 1],
               [op |-> "dev", key |-> 2, pro |-> c.pro, sk |-> 1, name |-> 2],
               [op |-> "dev", key |-> 3, pro |-> 1, sk |-> 1, name |-> 3] >>
  IN dv \o << [op |-> "add", d |-> 1, key |-> c.expect, name |-> 1] >>
        \o (IF c.reg1 THEN << [op |-> "add", d |-> 2, key |-> 1, name |-> 1] >> ELSE <<>>)
        \o << [op |-> "add", d |-> 2, key |-> 3, name |-> 3], [op |-> "add", d |-> 3, key |-> 2, name |-> 3], [op |-> "add", d |-> 3, key |-> 1, name |-> 3] >>
Open(k) == CASE k = "init"  -> [op |-> "init", d |-> 1, id |-> 1]
             [] k = "resp"  -> [op |-> "resp", d |-> 2]
             [] k = "cross" -> [op |-> "init", d |-> 3, id |-> 1]
RECURSIVE All(_, _)
All(s, q) == IF q = <<>> THEN s ELSE All(Apply(s, Head(q)).st, Tail(q))

Init == \E c \in [pro : {1, 2}, expect : {2, 3}, reg1 : BOOLEAN], ks \in Kinds :
          /\ cfg = c
          /\ st = All(St0, Ops0(c) \o [i \in DOMAIN ks |-> Open(ks[i])])
          /\ got = [i \in DOMAIN ks |-> <<>>]

Write(s) == /\ Len(st.ms) < MaxMs
            /\ LET o == [op |-> "write", s |-> s, lv |-> 0, len |-> 1, pt |-> "x"] IN
               LET r == Apply(st, o) IN st' = IF r.ok THEN r.st ELSE [r.st EXCEPT !.ms = st.ms]
            /\ UNCHANGED <<got, cfg>>
Read(s, m, a) == LET o == [op |-> "read", s |-> s, m |-> m, alt |-> a, mlen |-> IF a = 2 THEN 0 ELSE 100]
                     r == Apply(st, o) IN
                 /\ st' = r.st
                 /\ got' = IF r.ok THEN [got EXCEPT ![s] = Append(@, m)] ELSE got
                 /\ UNCHANGED cfg
Forget == st' = Apply(st, [op |-> "rm", d |-> 2, id |-> ByKey(st.dv[2], 1).id]).st /\ UNCHANGED <<got, cfg>>
Settle(s) == /\ st.se[s].ph = "maybe" /\ \E p \in {"hs", "dead"} : st' = [st EXCEPT !.se[s].ph = p]
             /\ UNCHANGED <<got, cfg>>
Next == \/ \E s \in DOMAIN st.se : \/ Write(s)
                                   \/ Settle(s)
                                   \/ \E m \in DOMAIN st.ms, a \in {0, 1, 2} : Read(s, m, a)
        \/ Forget

(* ---------------------------------------------------------------- properties *)
Up(s) == st.se[s].ph = "tr"
Owner(s) == st.dv[st.se[s].d]
Partner(s) == {p \in DOMAIN st.se : st.se[p].role # st.se[s].role /\
                 LET k == IF st.se[p].role = "R" /\ ~Up(p) THEN 4 ELSE 5 IN
                 Len(st.se[p].h) = k /\ SubSeq(st.se[s].h, 1, k) = st.se[p].h}
Intended ==      \* a session in transport has exactly one partner, which is the one it believes to talk to
  \A s \in DOMAIN st.se : Up(s) =>
    /\ Cardinality(Partner(s)) = 1
    /\ LET p == CHOOSE p \in Partner(s) : TRUE IN
       /\ Owner(p).pro = Owner(s).pro
       /\ st.se[s].rk = Owner(p).key
       /\ st.se[s].role = "I" => st.se[p].h[2] = Owner(p).key
       /\ st.se[s].role = "R" => st.se[p].rk = Owner(s).key /\ Up(p)
Policy == (\E s \in DOMAIN st.se : Up(s) /\ st.se[s].role = "R" /\ st.se[s].rk = 1) => cfg.reg1 /\ cfg.expect = 2 /\ cfg.pro = 1
Fresh ==         \* no two messages are protected by the same key and counter
  \A a \in DOMAIN st.ms, b \in DOMAIN st.ms :
    (a # b /\ st.ms[a].kind # "none") => <<st.ms[a].h, st.ms[a].role, st.ms[a].kind, st.ms[a].n>> # <<st.ms[b].h, st.ms[b].role, st.ms[b].kind, st.ms[b].n>> \/ (st.ms[a].by # st.ms[b].by /\ Len(st.ms[a].h) < 4)
IsTr(m) == st.ms[m].kind = "tr"
InOrder ==       \* what was read is a prefix of what the partner wrote
  \A s \in DOMAIN st.se : Up(s) =>
    LET mine == SelectSeq(got[s], IsTr)
        p == CHOOSE p \in Partner(s) : TRUE
        all == [i \in DOMAIN st.ms |-> i]
        sent == SelectSeq(all, LAMBDA m : IsTr(m) /\ st.ms[m].by = p)
    IN Len(mine) <= Len(sent) /\ mine = SubSeq(sent, 1, Len(mine))
NotStuck ==      \* whatever happened before, the genuine next message is accepted
  \A s \in DOMAIN st.se : Up(s) =>
    LET p == CHOOSE p \in Partner(s) : TRUE IN
    (Up(p) /\ st.se[p].sn > st.se[s].rn) =>
      \E m \in DOMAIN st.ms : ReadOk(st, [op |-> "read", s |-> s, m |-> m, alt |-> 0, mlen |-> 100])
(* reachability, checked with the configuration Reach *)
NeverUp == \A s \in DOMAIN st.se : ~(Up(s) /\ st.se[s].role = "R" /\ st.se[s].rn > 0)
=============================================================================
