------------------------------ MODULE NoiseGen -----------------------------
(* Programs for the secure channel, generated from NoiseXK.                   *)
(* WHAT = reg:  every sequence of DEPTH registry operations (keys enter in    *)
(*              order of their number);                                       *)
(* WHAT = walk: random walks over all operations, registry and sessions;      *)
(* WHAT = chan: random walks of an adversarial network between established    *)
(*              sessions.                                                     *)
(* WHAT = jump: the same, with many messages and counters moved forward;      *)
(* WHAT = hand, regwalk: walks about handshakes, about the registry.          *)
(* Walks are run with -simulate; each writes its operations to $OUT.          *)
EXTENDS NoiseXK, IOUtils, CSV, Json

Depth == atoi(IOEnv.DEPTH)
What  == IOEnv.WHAT
VARIABLES st, hist

(* ---------------------------------------------------------------- operations to choose from *)
Alts == 1 .. 9
Lens == <<0, 1, 15, 16, 17, 33, 64, 200, 1000, 5000, 65535, 70000>>
Devs == {d \in DOMAIN st.dv : Live(st.dv[d])}
MaxKey == 6
OAdd(d, k, nm) == [op |-> "add", d |-> d, key |-> k, name |-> nm]
ORm(d, i)      == [op |-> "rm", d |-> d, id |-> i]
OSave(d, i)    == [op |-> "save", d |-> d, id |-> i]
OLoad(d, b, nm, a) == [op |-> "load", d |-> d, b |-> b, name |-> nm, alt |-> a]
OWrite(s, lv, len) == [op |-> "write", s |-> s, lv |-> lv, len |-> len, pt |-> ""]
ORead(s, m, a) == [op |-> "read", s |-> s, m |-> m, alt |-> a, mlen |-> 100]

(* registry, exhaustively *)
Seen == {hist[i].key : i \in {j \in DOMAIN hist : hist[j].op = "add"}}
RegOps ==
  {OAdd(1, k, k) : k \in {k \in 1 .. 4 : \A j \in 1 .. k - 1 : j \in Seen}}
  \cup {ORm(1, i) : i \in 1 .. st.dv[1].next - 1}
  \cup {OSave(1, i) : i \in PeerIds(st.dv[1])}
  \cup {OLoad(1, b, st.bl[b].name, 0) : b \in DOMAIN st.bl}

(* two ends of a session in transport *)
Ends == {x \in (DOMAIN st.se) \X (DOMAIN st.se) : /\ st.se[x[1]].ph = "tr" /\ st.se[x[2]].ph = "tr"
                                              /\ st.se[x[1]].h = st.se[x[2]].h /\ st.se[x[1]].role # st.se[x[2]].role}
(* random choices; R(S) = {} if there is nothing to choose from *)
R(S) == IF S = {} THEN {} ELSE TLCEval({RandomElement(S)})
Good(s) == {m \in DOMAIN st.ms : ReadOk(st, ORead(s, m, 0))}
Due(s) ==      \* handshake messages whose turn it is, from whomever
  IF st.se[s].ph # "hs" \/ Writes(st.se[s]) THEN {} ELSE {m \in DOMAIN st.ms : st.ms[m].kind = "hs" /\ st.ms[m].role # st.se[s].role /\ Len(st.ms[m].h) = Len(st.se[s].h)}
Blobs(k) == {b \in DOMAIN st.bl : st.bl[b].kind = k}
Names == 0 .. 4
Ids(d) == PeerIds(d) \cup {0, 1, 2, 3, 4, d.next}
Pick(kind) ==
  CASE kind = "add"   -> UNION {R({OAdd(d, k, nm) : k \in 1 .. MaxKey, nm \in Names}) : d \in R(Devs)}
    [] kind = "rm"    -> UNION {R({ORm(d, i) : i \in Ids(st.dv[d])}) : d \in R(Devs)}
    [] kind = "save"  -> UNION {R({OSave(d, i) : i \in Ids(st.dv[d])}) : d \in R(Devs)}
    [] kind = "load"  -> UNION {R({OLoad(d, b, nm, 0) : b \in Blobs("peer"), nm \in Names}) : d \in R(Devs)}
    [] kind = "reload" -> UNION {UNION {{OLoad(d, b, st.bl[b].name, 0)} : b \in R(Blobs("peer"))} : d \in R(Devs)}
    [] kind = "badload" -> UNION {UNION {R({OLoad(d, b, st.bl[b].name, a) : a \in Alts}) : b \in R(Blobs("peer"))} : d \in R(Devs)}
    [] kind = "savedev" -> {[op |-> "savedev", d |-> d] : d \in R(Devs)}
    [] kind = "loaddev" -> IF Len(st.dv) >= 6 THEN {} ELSE
                           UNION {{[op |-> "loaddev", b |-> b, sk |-> st.bl[b].sk, name |-> st.bl[b].name, pro |-> pr, alt |-> 0] : pr \in R(0 .. 2)} : b \in R(Blobs("dev"))}
    [] kind = "badloaddev" -> IF Len(st.dv) >= 6 THEN {} ELSE
                           R({[op |-> "loaddev", b |-> b, sk |-> sk, name |-> nm, pro |-> 1, alt |-> a] : b \in Blobs("dev"), sk \in 1 .. 3, nm \in Names, a \in {0, 0, 1, 2, 3}})
    [] kind = "init"  -> IF Len(st.se) >= 8 THEN {} ELSE UNION {R({[op |-> "init", d |-> d, id |-> i] : i \in Ids(st.dv[d])}) : d \in R(Devs)}
    [] kind = "initok" -> IF Len(st.se) >= 12 THEN {} ELSE UNION {R({[op |-> "init", d |-> d, id |-> i] : i \in PeerIds(st.dv[d])}) : d \in R(Devs)}
    [] kind = "due"   -> UNION {R({ORead(s, m, 0) : m \in Due(s)}) : s \in R({s \in DOMAIN st.se : Due(s) # {}})}
    [] kind = "resp"  -> IF Len(st.se) >= 8 THEN {} ELSE {[op |-> "resp", d |-> d] : d \in R(Devs)}
    [] kind = "turn"  -> UNION {R({OWrite(s, lv, Lens[k]) : lv \in {0, 0, 1, 2, 3, 5}, k \in R(1 .. 9)}) : s \in R({s \in DOMAIN st.se : st.se[s].ph = "hs" /\ Writes(st.se[s])})}
    [] kind = "send"  -> UNION {R({OWrite(s, lv, Lens[k]) : lv \in {0, 5}, k \in R(1 .. (IF Len(hist) % 5 = 0 THEN Len(Lens) ELSE 9))}) : s \in R({s \in DOMAIN st.se : st.se[s].ph = "tr"})}
    [] kind = "write" -> UNION {R({OWrite(s, lv, Lens[k]) : lv \in 0 .. 7, k \in R(1 .. 8)}) : s \in R(DOMAIN st.se)}
    [] kind = "recv"  -> UNION {{ORead(s, m, 0) : m \in R(Good(s))} : s \in R({s \in DOMAIN st.se : Good(s) # {}})}
    [] kind = "stray" -> UNION {R({ORead(s, m, 0) : m \in DOMAIN st.ms}) : s \in R(DOMAIN st.se)}
    [] kind = "straytr" -> UNION {R({ORead(s, m, 0) : m \in {m \in DOMAIN st.ms : st.ms[m].kind = "tr"}}) : s \in R({s \in DOMAIN st.se : st.se[s].ph = "tr"})}
    [] kind = "alter" -> UNION {UNION {{ORead(s, m, a) : a \in R(Alts)} : m \in R(Good(s))} : s \in R({s \in DOMAIN st.se : Good(s) # {}})}
    [] kind = "altertr" -> UNION {UNION {{ORead(s, m, a) : a \in R(Alts)} : m \in R({m \in DOMAIN st.ms : st.ms[m].kind = "tr"})} : s \in R({s \in DOMAIN st.se : st.se[s].ph = "tr"})}
    [] kind = "jump" -> UNION {R({[op |-> "jump", s |-> x[1], r |-> x[2], k |-> k] : k \in {k \in 1 .. 6 : k * Leap > st.se[x[1]].sn /\ k * Leap > st.se[x[2]].rn}}) : x \in R(Ends)}
    [] kind = "burst" -> UNION {{[op |-> "burst", s |-> x[1], r |-> x[2], n |-> n] : n \in R({3, 254, 255, 256, 300})}
                                : x \in R({y \in Ends : st.se[y[1]].sn = st.se[y[2]].rn /\ st.se[y[1]].sn < 6 * Leap})}
    [] kind = "wane" -> {[op |-> "wane", d |-> d] : d \in R({d \in Devs : st.dv[d].next < LastId - 2 /\ st.dv[d].left = -1})}
WalkKinds == <<"add", "add", "rm", "wane", "save", "load", "reload", "badload", "savedev", "loaddev", "badloaddev", "init", "init", "resp", "resp",
               "turn", "turn", "turn", "turn", "turn", "recv", "recv", "recv", "due", "due", "due", "send", "send", "send", "write", "stray", "straytr", "alter", "altertr">>
HandKinds == <<"add", "rm", "init", "resp", "turn", "turn", "turn", "turn", "recv", "recv", "due", "due", "due", "due", "send", "write", "stray", "alter">>
ChanKinds == <<"send", "send", "send", "send", "recv", "recv", "recv", "straytr", "straytr", "altertr", "altertr", "write">>
JumpKinds == <<"send", "send", "send", "recv", "recv", "recv", "straytr", "straytr", "straytr", "altertr", "jump", "burst">>
RegKinds  == <<"wane", "initok", "initok", "resp", "add", "add", "add", "add", "rm", "rm", "rm", "save", "save", "load", "reload", "reload", "badload", "savedev", "loaddev", "badloaddev">>
Menu == IF What = "chan" THEN ChanKinds ELSE IF What = "jump" THEN JumpKinds ELSE IF What = "hand" THEN HandKinds ELSE IF What = "regwalk" THEN RegKinds ELSE WalkKinds

(* ---------------------------------------------------------------- start *)
Dev(k, p, sk, nm) == [op |-> "dev", key |-> k, pro |-> p, sk |-> sk, name |-> nm]
Parties(k2, p2, sk2, nm, e1, r1) ==
  <<Dev(1, 1, 1, 1), Dev(k2, p2, sk2, 2), Dev(3, 1, 2, nm)>>
  \o <<OAdd(1, e1, 2), OAdd(1, 3, 3)>>
  \o (CASE r1 = 0 -> <<OAdd(2, 3, 4)>> [] r1 > 6 -> <<OAdd(2, 3, 4), OAdd(2, r1 - 6, 1)>> [] OTHER -> <<OAdd(2, r1, 1), OAdd(2, 3, 4)>>)
  \o <<OAdd(3, 2, 2)>>
  \o <<[op |-> "init", d |-> 1, id |-> 1], [op |-> "resp", d |-> 2]>>
Setups ==
  CASE What = "reg" -> {<<Dev(1, 1, 1, 1)>>}
    [] What = "regwalk" -> {<<Dev(1, 1, 1, 1), Dev(2, 1, sk, 2)>> : sk \in {1, 2}}
                           \cup {<<Dev(1, 1, 1, 1), Dev(2, 1, 1, 2), OAdd(1, 2, 2), [op |-> "wane", d |-> 1]>>}
    [] What \in {"chan", "jump"} ->
         {<<Dev(1, 1, 1, 1), Dev(2, 1, 1, 2), OAdd(1, 2, 2), OAdd(2, 1, 1), [op |-> "init", d |-> 1, id |-> 1], [op |-> "resp", d |-> 2],
            OWrite(1, 0, a), ORead(2, 1, 0), OWrite(2, 0, b), ORead(1, 2, 0), OWrite(1, 0, c), ORead(2, 3, 0)>>
          \o (IF second THEN <<[op |-> "init", d |-> 1, id |-> 1], [op |-> "resp", d |-> 2],
            OWrite(3, 0, a), ORead(4, 4, 0), OWrite(4, 0, b), ORead(3, 5, 0), OWrite(3, 0, c), ORead(4, 6, 0)>> ELSE <<>>)
          : a \in {0, 20}, b \in {0, 20}, c \in {0, 20}, second \in BOOLEAN}
    [] OTHER ->        \* about half of them match
         {Parties(2, p2, sk2, 3, e1, r1) : p2 \in {1, 0, 2}, sk2 \in {1}, e1 \in {2, 4, 5}, r1 \in {0, 1, 6, 7, 12}}
         \cup {Parties(2, 1, sk2, nm, 2, 1) : sk2 \in {1, 2, 3}, nm \in {0, 1, 2, 4}}
RECURSIVE All(_, _)
All(s, q) == IF q = <<>> THEN s ELSE All(Apply(s, Head(q)).st, Tail(q))
Init == \E q \in Setups : hist = q /\ st = All(St0, q)

Do(o) == st' = Apply(st, o).st /\ hist' = Append(hist, o)
Room == Len(hist) < Depth
Draw == Pick(RandomElement({<<i, Menu[i]>> : i \in DOMAIN Menu})[2])
RECURSIVE Choice(_)
Choice(k) == LET c == TLCEval(IF k = 0 THEN Pick("add") ELSE Draw) IN IF c # {} \/ k = 0 THEN c ELSE Choice(k - 1)
Next == /\ hist # <<>>
        /\ IF ~Room THEN CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ hist' = <<>> /\ UNCHANGED st
           ELSE IF What = "reg" THEN \E o \in RegOps : Do(o)
           ELSE LET c == TLCEval(Choice(20)) IN \E o \in c : Do(o)
=============================================================================
