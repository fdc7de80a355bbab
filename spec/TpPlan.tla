------------------------------- MODULE TpPlan ------------------------------
(* The ways in which one message of a key generation session can deviate.    *)
(* A deviation is a record                                                   *)
(*   at    <<receiver, stage>>: the call whose input is changed              *)
(*   slot  <<sender, recipient>>: the message in that input                  *)
(*   op    what happens to it, with parameters                               *)
(*   sign  -1: the signature stays as it was, else the participant whose key *)
(*         renews the signature (who is then dishonest)                      *)
(*   outer 1: the TP renews the signature of the broadcast around it         *)
(*   dis   the dishonest participants (0: the TP); a message altered in      *)
(*         transit counts against its sender for the TP                      *)
(* TpDkgMC gives these records a meaning on symbolic messages and explores   *)
(* all of them, vlib/tp.py carries them out on the messages of real sessions.*)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, T, Eps, Who    \* Who: the peers whose messages deviate
Peers == 1 .. N

TpStages == {"4", "6", "8", "12", "14", "16", "20", "22"}
PeerStages == {"2", "5", "7", "9", "13", "15", "17", "21"}
(* kind of the messages in an input *)
KindAt(who, st) ==
  CASE st = "4" -> 2 [] st = "6" -> 4 [] st = "8" -> 5 [] st = "12" -> 6 [] st = "14" -> 8 [] st = "16" -> 9 [] st = "18" -> 11
    [] st = "20" -> 20 [] st = "22" -> 22
    [] st = "2" -> 1 [] st = "5" -> 2 [] st = "7" -> 4 [] st = "9" -> 5 [] st = "13" -> 6 [] st = "15" -> 8 [] st = "17" -> 9 [] st = "21" -> 21
TpSlots(st) == IF st \in {"6", "8", "14"} THEN Who \X Who ELSE IF st = "4" THEN Who \X {255} ELSE Who \X {0}
PeerSlots(i, st) ==
  CASE st = "2" -> {<<0, i>>}
    [] st \in {"5", "13", "17"} -> (Who \cup {0}) \X {255}
    [] st = "21" -> {<<0, 255>>}
    [] OTHER -> Who \X {i}
InnerSlots(st) == Who \X {255}

D(who, st, slot, op, sign, outer, dis, more) ==
  [x \in {"at", "slot", "op", "sign", "outer", "dis"} \cup DOMAIN more |->
     CASE x = "at" -> <<who, st>> [] x = "slot" -> slot [] x = "op" -> op [] x = "sign" -> sign [] x = "outer" -> outer [] x = "dis" -> dis
       [] OTHER -> more[x]]

Regions(k) == {"sig", "msgno", "len", "from", "to", "ts", "sid"} \cup (IF k = 1 THEN {} ELSE {"body"}) 

(* ---- alterations in transit *)
FlipTp == UNION {{D(0, st, s, "flip", -1, 0, <<s[1]>>, [f |-> r]) : s \in TpSlots(st), r \in Regions(KindAt(0, st)) \cup (IF st = "4" THEN {"lt"} ELSE {})} : st \in TpStages}
FlipPeer ==
  UNION {UNION {{D(i, st, s, "flip", -1, 0, <<0>>, [f |-> r]) : s \in (IF st \in {"5", "13", "17"} THEN InnerSlots(st) \cup {<<0, 255>>} ELSE PeerSlots(i, st)),
                                                              r \in Regions(IF st = "2" THEN 1 ELSE 2)} : i \in Who} : st \in PeerStages}
  \cup {D(i, "0", <<0, 255>>, "flip", -1, 0, <<0>>, [f |-> r]) : i \in Who, r \in Regions(0)}
(* the TP's broadcast renewed around an altered message *)
FlipInner == UNION {{D(i, st, s, "flip", -1, 1, <<0>>, [f |-> r]) : i \in Who, s \in InnerSlots(st), r \in Regions(2)} : st \in {"5", "13", "17"}}

(* ---- header fields by a dishonest sender *)
Other(x) == IF x = 1 THEN 2 ELSE 1
Headers(k, s) ==
  {[f |-> "msgno", v |-> k - 1], [f |-> "msgno", v |-> k + 1], [f |-> "msgno", v |-> 0],
   [f |-> "len", v |-> 0], [f |-> "len", v |-> 111], [f |-> "len", v |-> 100000],
   [f |-> "from", v |-> IF s[1] = 0 THEN 1 ELSE 0], [f |-> "from", v |-> Other(s[1])], [f |-> "from", v |-> N + 1],
   [f |-> "to", v |-> IF s[2] = 0 THEN 255 ELSE 0], [f |-> "to", v |-> IF s[2] \in Peers THEN Other(s[2]) ELSE 1], [f |-> "to", v |-> IF s[2] = 255 THEN 254 ELSE 255],
   [f |-> "dts", v |-> -1], [f |-> "dts", v |-> 0 - Eps - 1], [f |-> "dts", v |-> Eps], [f |-> "dts", v |-> Eps + 1], [f |-> "dts", v |-> 1],
   [f |-> "sid", v |-> 1]}
HdrTp == UNION {UNION {{D(0, st, s, "hdr", s[1], 0, <<s[1]>>, h) : h \in Headers(KindAt(0, st), s)} : s \in TpSlots(st)} : st \in TpStages}
HdrPeer ==      \* messages of the TP itself
  UNION {UNION {{D(i, st, <<0, IF st = "2" THEN i ELSE 255>>, "hdr", 0, 0, <<0>>, h) :
                   h \in Headers((CASE st = "0" -> 0 [] st = "2" -> 1 [] st = "5" -> 3 [] st = "13" -> 7 [] st = "17" -> 10 [] st = "21" -> 21), <<0, IF st = "2" THEN i ELSE 255>>)}
                : i \in Who} : st \in {"0", "2", "5", "13", "17", "21"}}
HdrRelay ==     \* TP and sender together: relayed message with other header fields, directly to the peer
  UNION {UNION {UNION {{D(i, st, s, "hdr", s[1], IF st \in {"5", "13", "17"} THEN 1 ELSE 0, <<0, s[1]>>, h) : h \in Headers(KindAt(i, st), s)}
                       : s \in (IF st \in {"5", "13", "17"} THEN InnerSlots(st) ELSE PeerSlots(i, st))} : i \in Who} : st \in {"5", "7", "9", "13", "15", "17"}}

(* ---- other messages in the place of the expected one *)
SubTp ==
  UNION {UNION {
      {D(0, st, s, "sub", -1, 0, <<s[1]>>, [src |-> [who |-> 0, stage |-> st, slot |-> r], other |-> o, fix |-> 0]) :
          r \in TpSlots(st), o \in {0, 1}} : s \in TpSlots(st)} : st \in TpStages}
  \cup {D(0, "8", s, "sub", -1, 0, <<s[1]>>, [src |-> [who |-> 0, stage |-> "6", slot |-> s], other |-> 0, fix |-> 0]) : s \in TpSlots("8")}
  \cup UNION {  \* contents of another message under the own name
      {D(0, st, s, "sub", s[1], 0, <<s[1]>>, [src |-> [who |-> 0, stage |-> st, slot |-> r], other |-> o, fix |-> 1]) : s \in TpSlots(st), r \in TpSlots(st), o \in {0, 1}}
      : st \in {"4", "6", "8", "12", "14", "20"}}
SubPeer ==
  UNION {UNION {{D(i, st, s, "sub", -1, IF st \in {"5", "13", "17"} /\ s[1] # 0 THEN 1 ELSE 0, <<0>>,
                   [src |-> [who |-> j, stage |-> st, slot |-> IF s[2] = 255 THEN <<r, 255>> ELSE <<r, j>>], other |-> o, fix |-> 0]) :
                   s \in (IF st \in {"5", "13", "17"} THEN InnerSlots(st) \cup {<<0, 255>>} ELSE PeerSlots(i, st)), r \in Who \cup {0}, j \in Who, o \in {0, 1}}
                : i \in Who} : st \in PeerStages}

(* ---- contents *)
Keys4 == {D(0, "4", <<d, 255>>, "keys", d, 0, <<d>>, [how |-> h, lt |-> l]) : d \in Who, h \in {"noise", "noise0", "noisedup", "sig"}, l \in {0, 1}}
Commit12 == {D(0, "12", <<d, 0>>, "commit", d, 0, <<d>>, [how |-> h, k |-> k]) : d \in Who, h \in {"junk", "identity", "swap", "dup", "highbit", "generator"}, k \in IF T < 4 THEN 1 .. T ELSE {1, 2, T}}
Share14 == {D(0, "14", <<d, j>>, "share8", d, 0, <<d>>, [how |-> h]) : d \in Who, j \in Who,
            h \in {"value", "index", "noncanon", "zero", "other", "otheridx", "hs", "mac", "cipher", "highbit"}}
Lists == {[count |-> Len(l), list |-> l] : l \in UNION {[1 .. c -> Who \cup {0, N + 1}] : c \in 1 .. 2}}
         \cup {[count |-> c, list |-> [x \in Peers |-> x]] : c \in {N, N + 1, 200, 255}}
         \cup {[count |-> 0, list |-> <<1>>], [count |-> N, list |-> [x \in Peers |-> 1]]}
List16 == {D(0, "16", <<d, 0>>, "list", d, 0, <<d>>, l) : d \in Who, l \in Lists}
Dig20 == {D(0, "20", <<d, 0>>, "flip", d, 0, <<d>>, [f |-> "body"]) : d \in Who}
Ack22 == {D(0, "22", <<d, 0>>, "text", d, 0, <<d>>, [how |-> h]) : d \in Who, h \in {"NO", "ok", "OX", "XK"}}
Ann21 == {D(i, "21", <<0, 255>>, "text", 0, 0, <<0>>, [how |-> h]) : i \in Who, h \in {"NO", "ok", "OX", "XK"}}
Index2 == {D(i, "2", <<0, i>>, "hdr", 0, 0, <<0>>, [f |-> "to", v |-> v]) : i \in Who, v \in {0, N, N + 1, 127, 128, 129, 254, 255} \cup Who}
First0 == {D(i, "0", <<0, 255>>, "first", 0, 0, <<0>>, [how |-> h, v |-> v]) : i \in Who, h \in {"n", "t", "dst", "both"}, v \in {0, 1, 2, 3, 4, 127, 128, 129, 255}}

(* ---- different versions of a broadcast for one peer *)
Equiv == UNION {
     {D(i, "13", <<d, 255>>, "commit", d, 1, <<0, d>>, [how |-> h, k |-> 1]) : i \in Who, d \in Who, h \in {"junk", "generator", "swap"}}
   , {D(i, "17", <<d, 255>>, "list", d, 1, <<0, d>>, [count |-> c, list |-> IF c = 0 THEN <<1>> ELSE <<a>>]) : i \in Who, d \in Who, c \in {0, 1}, a \in Who}
   , {D(i, "5", <<d, 255>>, "keys", d, 1, <<0, d>>, [how |-> h, lt |-> 0]) : i \in Who, d \in Who, h \in {"noise", "noisedup"}}
   , {D(i, st, <<0, 255>>, "hdr", 0, 0, <<0>>, [f |-> "dts", v |-> 1]) : i \in Who, st \in {"0", "5", "13", "17"}}
   , {D(i, st, <<d, 255>>, "hdr", d, 1, <<0, d>>, [f |-> "dts", v |-> 1]) : i \in Who, d \in Who, st \in {"5", "13", "17"}}
   , {D(i, "15", <<d, i>>, "share8", d, 0, <<0, d>>, [how |-> h]) : i \in Who, d \in Who, h \in {"value", "zero", "mac", "cipher"}}}

(* ---- arbitrary contents, correctly signed *)
Junk == UNION {{D(0, st, s, "junk", s[1], 0, <<s[1]>>, [n |-> k]) : s \in TpSlots(st), k \in 1 .. 2} : st \in TpStages}
   \cup UNION {{D(i, st, s, "junk", s[1], IF st \in {"5", "13", "17"} /\ s[1] # 0 THEN 1 ELSE 0, IF s[1] = 0 THEN <<0>> ELSE <<0, s[1]>>, [n |-> 1]) :
                  s \in PeerSlots(i, st)} : i \in Who, st \in PeerStages \ {"2"}}
   \cup {D(i, "0", <<0, 255>>, "junk", 0, 0, <<0>>, [n |-> 1]) : i \in Who}

(* those whose effect shows in the call that receives the message *)
Immediate == FlipTp \cup FlipPeer \cup FlipInner \cup HdrTp \cup HdrPeer \cup HdrRelay \cup SubTp \cup SubPeer
Deep == Keys4 \cup Commit12 \cup Share14 \cup List16 \cup Dig20 \cup Ack22 \cup Ann21 \cup Index2 \cup First0 \cup Equiv
All == Immediate \cup Deep

(* ---- complaints and answers: several deviations in one session *)
Complain(c, a) == D(0, "16", <<c, 0>>, "list", c, 0, <<c>>, [count |-> 1, list |-> <<a>>])
Wrong14(d, j, h) == D(0, "14", <<d, j>>, "share8", d, 0, <<d>>, [how |-> h])
Reveal(a, h, k, to) == D(0, "18", <<a, 0>>, "reveal", a, 0, <<a>>, [how |-> h, k |-> k, v |-> to])
Rev18(a) == {Reveal(a, h, k, to) : h \in {"wrongkey", "zerokey", "dup", "permute"}, k \in {0, 1}, to \in {0}}
            \cup {Reveal(a, h, k, to) : h \in {"happy", "who"}, k \in {0, 1}, to \in Who \cup {0, N + 1}}
            \cup {D(0, "18", <<a, 0>>, "hdr", a, 0, <<a>>, h) : h \in Headers(11, <<a, 0>>)}
            \cup {D(0, "18", <<a, 0>>, "flip", -1, 0, <<a>>, [f |-> r]) : r \in Regions(11)}
Justified(a, c) == {<<Wrong14(a, c, h)>> : h \in {"value", "index", "noncanon", "zero", "other", "highbit"}}
Cases17 ==
  UNION {UNION {
        {<<Complain(c, a)>>}
   \cup Justified(a, c)
   \cup {<<Complain(c, a), r>> : r \in Rev18(a)}
   \cup {<<Wrong14(a, c, "value"), r>> : r \in Rev18(a)}
   \cup {<<Wrong14(a, c, "value"), Complain(c, b)>> : b \in Who}
   \cup {<<Wrong14(a, c, "value"), Complain(b, a)>> : b \in Who \ {c}}
   \cup {<<Wrong14(a, c, "value"), Complain(b, a), r>> : b \in Who \ {c}, r \in Rev18(a)}
   \cup {<<Wrong14(a, c, "value"), Wrong14(a, b, "value")>> : b \in Who \ {c}}
   \cup {<<Wrong14(a, c, "value"), Wrong14(c, a, "index")>>}
   \cup {<<Complain(c, a), Complain(a, c)>>}
   : a \in Who \ {c}} : c \in Who}

(* ---- any two or three accusations, nobody having done anything wrong *)
Accusations == {x \in Who \X Who : x[1] # x[2]}
Accuse(s) ==
  LET who == {x[1] : x \in s}
      of(c) == {x[2] : x \in {y \in s : y[1] = c}}
      seq(c) == LET k == of(c) IN [x \in 1 .. Cardinality(k) |-> CHOOSE y \in k : Cardinality({z \in k : z < y}) = x - 1]
      all(w) == LET c == CHOOSE x \in w : TRUE IN D(0, "16", <<c, 0>>, "list", c, 0, <<c>>, [count |-> Len(seq(c)), list |-> seq(c)])
      RECURSIVE go(_)
      go(w) == IF w = {} THEN <<>> ELSE LET c == CHOOSE x \in w : \A y \in w : x <= y IN <<all({c})>> \o go(w \ {c})
  IN go(who)
False2 == {Accuse({x, y}) : x \in Accusations, y \in Accusations}
False3 == {Accuse({x, y, z}) : x \in Accusations, y \in Accusations, z \in Accusations}

(* ---- very many accusations *)
AllPairs == {x \in Peers \X Peers : x[1] # x[2]}
Mass == {Accuse(AllPairs), Accuse({x \in AllPairs : x[1] < x[2]}), Accuse({x \in AllPairs : x[1] > x[2]})}
        \cup {Accuse({x \in AllPairs : x[2] = a}) : a \in Who} \cup {Accuse({x \in AllPairs : x[1] = a}) : a \in Who}
        \cup {Accuse({x \in AllPairs : x[2] = a}) \o <<r>> : a \in Who, r \in UNION {Rev18(b) : b \in Who}}

(* ---- two or all senders at fault in the same step *)
Fault(st, d, h) ==
  LET s == <<d, IF st \in {"6", "8", "14"} THEN 1 + (d % N) ELSE IF st = "4" THEN 255 ELSE 0>> IN
  IF h = "flip" THEN D(0, st, s, "flip", -1, 0, <<d>>, [f |-> "sig"])
  ELSE IF h = "body" THEN D(0, st, s, "flip", d, 0, <<d>>, [f |-> "body"])
  ELSE D(0, st, s, "hdr", d, 0, <<d>>, IF h = "from" THEN [f |-> "from", v |-> N + 1] ELSE IF h = "sid" THEN [f |-> "sid", v |-> 1] ELSE [f |-> "dts", v |-> 0 - Eps - 1])
Faults(st) == {"flip", "from", "sid", "dts"} \cup (IF st = "20" THEN {"body"} ELSE {})
Several ==
  UNION {UNION {{<<Fault(st, d, h), Fault(st, e, g)>> : h \in Faults(st), g \in Faults(st)} : <<d, e>> \in {x \in Who \X Who : x[1] < x[2]}} : st \in TpStages}
  \cup {[d \in Peers |-> Fault(st, d, h)] : st \in TpStages, h \in {"flip", "from", "sid", "dts"}}
=============================================================================
