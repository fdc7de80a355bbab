------------------------------- MODULE TpRoute -----------------------------
(* Sizes and routing of honest sessions for any number of peers, with the    *)
(* messages represented by digests; and the admissible parameters.  Events:  *)
(*  params  {n, t, name, ret, an, at, joined}: a start with these parameters *)
(*          and a peer given the resulting first message                     *)
(*  join    {n, t, ret}: a peer given an authentic first message with n, t   *)
(*  fresh   {sids}: identifiers of many sessions                             *)
(*  open    {n, t}: a session begins                                         *)
(*  step    one call: who, insz, inszs, outsz, ret, done, inlen, outlen,     *)
(*          in/parts: digests of the messages in the input and in the part   *)
(*          of the output handed to each peer; head: the broadcast's own     *)
(*          digest per peer                                                  *)
(*  end     {tp, peers, shares}: who finished, final <<index, value>>                           *)
EXTENDS TraceBase, Prims

No2(a, b) == FALSE
P == INSTANCE TpDkg WITH Signed <- No2, LtSigned <- No2, Le <- No2, Plus <- No2, Minus <- No2,
        ShareOk <- LAMBDA a, b, c : FALSE, Odd <- LAMBDA a : FALSE, MacOk <- No2, Opened <- No2, Digest <- LAMBDA a : FALSE
S == INSTANCE Threshold WITH Add <- SAdd, Sub <- SSub, Mul <- SMul, Inv <- SInv, Num <- SInt,
                             GAdd <- PAdd, GMul <- PMul, GValid <- PValid, GBase <- PBase, G0 <- P0, Canon <- SCanon

R(st, b) == [st |-> st, bad |-> b]
TpNext(s) == CASE s = "1" -> "4" [] s = "4" -> "6" [] s = "6" -> "8" [] s = "8" -> "12" [] s = "12" -> "14" [] s = "14" -> "16"
               [] s = "16" -> "20" [] s = "20" -> "22" [] s = "22" -> "end" [] OTHER -> "over"
PeerNext(s) == CASE s = "2" -> "5" [] s = "5" -> "7" [] s = "7" -> "9" [] s = "9" -> "13" [] s = "13" -> "15" [] s = "15" -> "17"
                 [] s = "17" -> "19" [] s = "19" -> "21" [] s = "21" -> "end" [] OTHER -> "over"

DStart(run) == [n |-> 0, t |-> 0, tp |-> "1", p |-> <<>>]
Mach(st, stage, idx) == [stage |-> stage, n |-> st.n, t |-> st.t, cpl |-> {}, idx |-> idx]

SameAll(xs) == \A i \in 1 .. Len(xs) : xs[i] = xs[1]
Parts(st, e) ==
  LET n == st.n IN
  CASE st.tp \in {"6", "8", "14"} ->
         Viol("C20", \A i \in 1 .. n : e.parts[i] = [j \in 1 .. n |-> e.in[j][i]], "message not handed to its addressee")
    [] st.tp \in {"4", "12", "16"} ->
         Viol("C20", SameAll(e.head) /\ \A i \in 1 .. n : e.parts[i] = [j \in 1 .. n |-> e.in[j][1]], "broadcast does not carry the peers' messages")
    [] st.tp = "20" -> Viol("C20", SameAll(e.head), "broadcast differs")
    [] st.tp = "1" -> Viol("C20", e.to = [i \in 1 .. n |-> i] /\ Cardinality({e.head[i] : i \in 1 .. n}) = n, "index not handed to its peer")
    [] st.tp = "22" -> Viol("C20", \A i \in 1 .. n : e.plen[i] = 0, "nothing to send")

DStep(run, st, e) ==
  CASE e.op = "params" ->
         LET ok == P!ParamsOk(e.n, e.t, e.name) IN
         R(st, Viol("C22", (e.ret = 0) <=> ok, "parameters of a session")
               \cup (IF e.ret = 0 THEN Viol("C22", e.an = e.n /\ e.at = e.t /\ e.joined = 0, "first message of a started session not accepted") ELSE {}))
    [] e.op = "join" -> R(st, Viol("C22", (e.ret = 0) <=> P!ParamsOk(e.n, e.t, 1), "joining with these parameters"))
    [] e.op = "fresh" -> R(st, Viol("C22", Cardinality({e.sids[k] : k \in 1 .. Len(e.sids)}) = Len(e.sids), "session identifier repeated"))
    [] e.op = "open" -> R([n |-> e.n, t |-> e.t, tp |-> "1", p |-> [i \in 1 .. e.n |-> "2"]], {})
    [] e.op = "step" ->
         IF e.who = 0
         THEN LET s == Mach(st, st.tp, 0)
                  f[j \in 1 .. st.n] == P!TpInSize(s, j)
              IN R([st EXCEPT !.tp = TpNext(@)],
                   Viol("C20", e.insz = P!SumTo(f, st.n) /\ e.inlen = e.insz /\ e.outsz = P!TpOutSize(s) /\ \A j \in 1 .. st.n : e.inszs[j] = f[j], "announced sizes")
                   \cup Viol("C20", e.ret = 0, "exact sizes refused")
                   \cup Viol("C28", e.ret = 0 /\ (e.done = 1 <=> st.tp = "22"), "honest session did not advance")
                   \cup (IF e.ret = 0 THEN Parts(st, e) ELSE {}))
         ELSE LET s == Mach(st, st.p[e.who], e.who)
              IN R([st EXCEPT !.p[e.who] = PeerNext(@)],
                   Viol("C20", e.insz = P!PeerInSize(s) /\ e.inlen = e.insz /\ e.outsz = P!PeerOutSize(s), "announced sizes")
                   \cup Viol("C20", e.ret = 0, "exact sizes refused")
                   \cup Viol("C28", e.ret = 0, "honest session did not advance"))
    [] e.op = "end" ->
         R(st, Viol("C28", e.tp = 1 /\ \A i \in 1 .. st.n : e.peers[i] = 1, "honest session did not complete")
               \cup Viol("C11", \A i \in 1 .. st.n : e.shares[i][1] = i, "index of a final share")
               \cup Viol("C11", S!DegreeBelow(e.shares, st.t), "final shares are not on one polynomial"))
=============================================================================
