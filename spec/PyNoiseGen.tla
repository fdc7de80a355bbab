---------------------------- MODULE PyNoiseGen -----------------------------
(* Random programs for the Python module of the secure channel.  Run with    *)
(* -simulate; each walk writes its operations to $OUT.                       *)
EXTENDS PyNoise, IOUtils, CSV, Json

Depth == atoi(IOEnv.DEPTH)
VARIABLES st, hist

R(S) == IF S = {} THEN {} ELSE TLCEval({RandomElement(S)})
Lens == {0, 1, 16, 40, 300, 5000}
Alts == 1 .. 9
Sess == DOMAIN st.se
Hs(s) == st.se[s].ph = "hs"
Waiting(s, t) == Hs(s) /\ TurnOf(st.se[s]) = t
Fit(s) == {m \in DOMAIN st.ms : ReadOk(st, OR(s, m, 0, 100))}
Near(s) == {m \in DOMAIN st.ms : st.ms[m].kind = "hs" /\ st.ms[m].role # st.se[s].role /\ Len(st.ms[m].h) = Len(st.se[s].h)}
Take(op, S, pool(_), alts) ==
  UNION {UNION {{[op |-> op, s |-> s, m |-> m, alt |-> a, mlen |-> 100] : a \in R(alts)} : m \in R(pool(s))} : s \in R({s \in S : pool(s) # {}})}
AnyM(s) == {m \in DOMAIN st.ms : st.ms[m].kind # "none"}
Key == 1 .. 3
(* devices that the program itself has made *)
Makers == SelectSeq(hist, LAMBDA o : o.op \in {"dev", "isess", "rsess"})
Own == {d \in DOMAIN st.dv : Makers[d].op = "dev"}
Pick(kind) ==
  CASE kind = "dev"   -> IF Len(st.dv) >= 5 THEN {} ELSE R({[op |-> "dev", key |-> k, pro |-> p, sk |-> 0, name |-> nm] : k \in Key, p \in 1 .. 3, nm \in 1 .. 2})
    [] kind = "add"   -> UNION {R({[op |-> "add", d |-> d, key |-> k, name |-> nm] : k \in Key, nm \in 1 .. 2}) : d \in R(Own)}
    [] kind = "init"  -> IF Len(st.se) >= 8 THEN {} ELSE UNION {R({[op |-> "init", d |-> d, id |-> i] : i \in PeerIds(st.dv[d]) \cup R(0 .. 3)}) : d \in R(Own)}
    [] kind = "resp"  -> IF Len(st.se) >= 8 THEN {} ELSE {[op |-> "resp", d |-> d] : d \in R(Own)}
    [] kind = "first" -> {[op |-> "first", s |-> s] : s \in R({s \in Sess : Waiting(s, 0) /\ st.se[s].role = "I"})}
    [] kind = "reply" -> Take("reply", {s \in Sess : Waiting(s, 0) /\ st.se[s].role = "R"}, Fit, {0})
    [] kind = "badreply" -> Take("reply", {s \in Sess : Waiting(s, 0) /\ st.se[s].role = "R"}, Near, 0 .. 9)
    [] kind = "done"  -> Take("done", {s \in Sess : Waiting(s, 1) /\ st.se[s].role = "I"}, Fit, {0})
    [] kind = "baddone" -> Take("done", {s \in Sess : Waiting(s, 1) /\ st.se[s].role = "I"}, Near, 0 .. 9)
    [] kind = "third" -> {[op |-> "send", s |-> s, len |-> n, pt |-> ""] : s \in R({s \in Sess : Waiting(s, 2) /\ st.se[s].role = "I"}), n \in R(Lens)}
    [] kind = "send"  -> {[op |-> "send", s |-> s, len |-> n, pt |-> ""] : s \in R({s \in Sess : st.se[s].ph = "tr"}), n \in R(Lens)}
    [] kind = "recv"  -> Take("recv", Sess, Fit, {0})
    [] kind = "badrecv" -> Take("recv", {s \in Sess : Waiting(s, 2) \/ st.se[s].ph = "tr"}, AnyM, 0 .. 9)
    [] kind = "altrecv" -> Take("recv", {s \in Sess : st.se[s].ph = "tr"}, Fit, Alts)
    [] kind = "misuse" -> UNION {R({[op |-> "first", s |-> s], [op |-> "send", s |-> s, len |-> 5, pt |-> ""]}) : s \in R({s \in Sess : Hs(s)})}
    [] kind = "who"   -> {[op |-> "who", s |-> s, d |-> st.se[s].d] : s \in R({s \in Sess : st.se[s].d \in Own /\ (st.se[s].ph = "tr" \/ Waiting(s, 0))})}
    [] kind = "isess" -> IF Len(st.se) >= 8 THEN {} ELSE R({[op |-> "isess", key |-> k, rkey |-> r, pro |-> p] : k \in Key, r \in Key, p \in {0, 1, 2, 3}})
    [] kind = "rsess" -> IF Len(st.se) >= 8 THEN {} ELSE
         UNION {R({[op |-> "rsess", key |-> st.ms[m].h[2], keys |-> ks, pro |-> p, m |-> m, alt |-> 0, mlen |-> 100]
                   : ks \in {<<1, 2, 3>>, <<2>>, <<3, 1>>}, p \in {st.ms[m].h[1]} \cup R(0 .. 3)})
                : m \in R({m \in DOMAIN st.ms : st.ms[m].kind = "hs" /\ Len(st.ms[m].h) = 2})}
Menu == <<"dev", "add", "init", "resp", "first", "first", "reply", "reply", "reply", "badreply", "done", "done", "done", "baddone", "third", "third", "third",
          "send", "send", "send", "recv", "recv", "recv", "recv", "recv", "badrecv", "altrecv", "misuse", "who", "who", "isess", "rsess", "rsess">>

Dev(k, p) == [op |-> "dev", key |-> k, pro |-> p, sk |-> 0, name |-> 1]
Add(d, k) == [op |-> "add", d |-> d, key |-> k, name |-> 2]
Setups == {<<Dev(1, p), Dev(2, q), Add(1, 2), Add(2, k), [op |-> "init", d |-> 1, id |-> 1], [op |-> "resp", d |-> 2], [op |-> "first", s |-> 1],
             [op |-> "reply", s |-> 2, m |-> 1, alt |-> 0, mlen |-> 100]>> : p \in 1 .. 3, q \in 1 .. 3, k \in {1, 3}}
          \cup {<<Dev(1, p), Dev(2, p), Add(1, 2), Add(2, 1), [op |-> "init", d |-> 1, id |-> 1], [op |-> "resp", d |-> 2], [op |-> "first", s |-> 1],
             [op |-> "reply", s |-> 2, m |-> 1, alt |-> 0, mlen |-> 100], [op |-> "done", s |-> 1, m |-> 2, alt |-> 0, mlen |-> 100],
             [op |-> "send", s |-> 1, len |-> n, pt |-> ""], [op |-> "recv", s |-> 2, m |-> 3, alt |-> 0, mlen |-> 100]>> : p \in 1 .. 3, n \in Lens}
          \cup {<<[op |-> "isess", key |-> 1, rkey |-> 2, pro |-> p], [op |-> "rsess", key |-> 2, keys |-> <<1, 3>>, pro |-> q, m |-> 1, alt |-> 0, mlen |-> 100]>> : p \in 0 .. 3, q \in 0 .. 3}
RECURSIVE All(_, _)
All(s, q) == IF q = <<>> THEN s ELSE All(PyApply(s, Head(q)).st, Tail(q))
Init == \E q \in Setups : hist = q /\ st = All(St0, q)
Do(o) == st' = PyApply(st, o).st /\ hist' = Append(hist, o)
Draw == Pick(RandomElement({<<i, Menu[i]>> : i \in DOMAIN Menu})[2])
RECURSIVE Choice(_)
Choice(k) == LET c == TLCEval(IF k = 0 THEN Pick("isess") ELSE Draw) IN IF c # {} \/ k = 0 THEN c ELSE Choice(k - 1)
Next == /\ hist # <<>>
        /\ LET c == TLCEval(IF Len(hist) >= Depth THEN {} ELSE Choice(30)) IN
           IF c = {} THEN CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ hist' = <<>> /\ UNCHANGED st
           ELSE \E o \in c : Do(o)
=============================================================================
