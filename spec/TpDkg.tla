------------------------------- MODULE TpDkg -------------------------------
(* The key generation protocol run by n peers around a trusted party (TP),   *)
(* as two state machines.  Every call of a party consumes a list of messages *)
(* and the operators below give the verdict the party has to reach:          *)
(*   ok     "yes" the call succeeds, "no" it fails, "any" either is allowed  *)
(*   why    causes of a necessary failure                                    *)
(*   must   peers the TP has to report, may: peers it is allowed to report   *)
(*   st     the successor state if the call succeeds                         *)
(* A message is a record with the header fields msgno, len, from, to, ts,    *)
(* sid, the content of its kind, raw (what a transcript covers) and whatever *)
(* the interpretation of the parameters below needs.  The exhaustive model   *)
(* TpDkgMC interprets them symbolically, the conformance specification       *)
(* TpDkgTrace on the bytes of recorded sessions.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Signed(_, _),        \* message, key: valid signature of the key over header and body
  LtSigned(_, _),      \* message, key: valid long-term signature over the signed message
  Le(_, _), Plus(_, _), Minus(_, _),   \* time
  ShareOk(_, _, _),    \* commitments of the dealer, recipient, share: the value fits
  Odd(_),              \* commitments that may be refused even if the share fits
  MacOk(_, _),         \* revealed key, share message
  Opened(_, _),        \* revealed key, share message: the share or NoShare
  Digest(_)            \* of a transcript (sequence of raw broadcasts)

Bcast == 255
NoShare == <<-1, "">>      \* shares are <<index, value>>
Hdr == 111
MsgSize(k, n, t) ==
  CASE k = 0 -> Hdr + 66
    [] k = 1 -> Hdr
    [] k = 2 -> Hdr + 64
    [] k = 3 -> Hdr + n * (Hdr + 64)
    [] k = 4 -> Hdr + 48
    [] k = 5 -> Hdr + 48
    [] k = 6 -> Hdr + 32 * t
    [] k = 7 -> Hdr + n * (Hdr + 32 * t)
    [] k = 8 -> Hdr + 64 + 33 + 16 + 32
    [] k = 9 -> Hdr + 1 + n
    [] k = 10 -> Hdr + n * (Hdr + 1 + n)
    [] k = 20 -> Hdr + 32
    [] k = 21 -> Hdr + 2
    [] k = 22 -> Hdr + 2
RevealSize(c) == Hdr + 33 * c
LtSize == 64

Range(s) == {s[i] : i \in 1 .. Len(s)}
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

(* ---------------------------------------------------------------- messages *)
If(c, x) == IF c THEN {x} ELSE {}
In(x, lo, hi) == Le(lo, x) /\ Le(x, hi)

(* what is wrong with a message, timestamps aside *)
Wrong(m, size, k, from, to, pk, sid) ==
       If(m.len # size, "len") \cup If(m.msgno # k, "msgno") \cup If(m.from # from, "from") \cup If(m.to # to, "to")
  \cup If(m.sid # sid, "sid") \cup If(~Signed(m, pk), "sig")
(* after an earlier message of the same sender *)
Late(m, last, eps) == If(~In(m.ts, last, Plus(last, eps)), "ts")
(* first message of a sender: against the local clock *)
First(m, now, eps) == If(~In(m.ts, Minus(now, eps), Plus(now, eps)), "ts")

Yes(st)          == [ok |-> "yes", why |-> {}, must |-> {}, may |-> {}, st |-> st]
No(why)          == [ok |-> "no", why |-> why, must |-> {}, may |-> {}, st |-> <<>>]
(* b: set of <<sender, cause>>; g: causes that allow but do not force a failure *)
Verdict(b, g, st) ==
  [ok   |-> IF b # {} THEN "no" ELSE IF g # {} THEN "any" ELSE "yes",
   why  |-> {x[2] : x \in b},
   must |-> {x[1] : x \in b},
   may  |-> {x[1] : x \in b \cup g},
   st   |-> st]

(* a sequence of messages of one sender: [bad: causes, last: timestamp reached] *)
Walk(ms, last, eps, wrong(_, _)) ==
  LET go[k \in 0 .. Len(ms)] ==
        IF k = 0 THEN [bad |-> {}, last |-> last]
        ELSE LET p == go[k - 1]
                 w == wrong(ms[k], k) \cup Late(ms[k], p.last, eps)
             IN [bad |-> p.bad \cup w, last |-> IF w = {} THEN ms[k].ts ELSE p.last]
  IN go[Len(ms)]

(* ---------------------------------------------------------------- parameters *)
ParamsOk(n, t, namelen) == 2 <= t /\ t < n /\ n <= 128 /\ 1 <= namelen /\ namelen <= 1024

(* ---------------------------------------------------------------- trusted party *)
TpInit(n, t, eps, now, sid, pk, lt, msg0) ==
  [stage |-> "1", n |-> n, t |-> t, eps |-> eps, now0 |-> now, sid |-> sid, pk |-> pk, lt |-> lt,
   last |-> [j \in 1 .. n |-> now], ep |-> <<>>, com |-> <<>>, enc |-> <<>>, cpl |-> {}, tr |-> <<msg0>>]

(* announced sizes, per peer *)
Accusers(st, a) == {c \in 1 .. st.n : <<c, a>> \in st.cpl}
TpInSize(st, j) ==
  CASE st.stage = "1" -> 0
    [] st.stage = "4" -> MsgSize(2, st.n, st.t) + LtSize
    [] st.stage \in {"6", "8"} -> st.n * MsgSize(4, st.n, st.t)
    [] st.stage = "12" -> MsgSize(6, st.n, st.t)
    [] st.stage = "14" -> st.n * MsgSize(8, st.n, st.t)
    [] st.stage = "16" -> MsgSize(9, st.n, st.t)
    [] st.stage = "18" -> LET c == Cardinality(Accusers(st, j)) IN IF c = 0 THEN 0 ELSE RevealSize(c)
    [] st.stage = "20" -> MsgSize(20, st.n, st.t)
    [] st.stage = "22" -> MsgSize(22, st.n, st.t)
TpOutSize(st) ==
  CASE st.stage = "1" -> st.n * MsgSize(1, st.n, st.t)
    [] st.stage = "4" -> MsgSize(3, st.n, st.t)
    [] st.stage \in {"6", "8"} -> st.n * st.n * MsgSize(4, st.n, st.t)
    [] st.stage = "12" -> MsgSize(7, st.n, st.t)
    [] st.stage = "14" -> st.n * st.n * MsgSize(8, st.n, st.t)
    [] st.stage = "16" -> MsgSize(10, st.n, st.t)
    [] st.stage = "18" -> 0
    [] st.stage = "20" -> MsgSize(21, st.n, st.t)
    [] st.stage = "22" -> 0

TpAfter(st) ==
  CASE st.stage = "1" -> "4" [] st.stage = "4" -> "6" [] st.stage = "6" -> "8" [] st.stage = "8" -> "12"
    [] st.stage = "12" -> "14" [] st.stage = "14" -> "16"
    [] st.stage = "16" -> (IF st.cpl = {} THEN "20" ELSE "18")
    [] st.stage = "20" -> "22" [] st.stage = "22" -> "end"

Tag(j, causes) == {<<j, c>> : c \in causes}

(* step 4: the peers' session keys, under their long-term keys; in[j] *)
Tp4(st, in, now) ==
  LET bad(j)  == Wrong(in[j], MsgSize(2, st.n, st.t), 2, j, Bcast, in[j].pk, st.sid)
                 \cup If(~LtSigned(in[j], st.lt[j]), "lt")
                 \cup If(~In(in[j].ts, Minus(st.now0, st.eps), Plus(now, st.eps)), "ts")
      gray(j) == If(~In(in[j].ts, st.now0, Plus(st.now0, st.eps)), "ts")
  IN Verdict(UNION {Tag(j, bad(j)) : j \in 1 .. st.n}, UNION {Tag(j, gray(j)) : j \in 1 .. st.n},
             [st EXCEPT !.last = [j \in 1 .. st.n |-> in[j].ts], !.ep = [j \in 1 .. st.n |-> in[j].pk]])

(* steps 6, 8, 14: messages from everybody to everybody; in[j][i] *)
TpRoute(st, in, k) ==
  LET w(j) == LET wrong(m, i) == Wrong(m, MsgSize(k, st.n, st.t), k, j, i, st.ep[j], st.sid)
              IN Walk(in[j], st.last[j], st.eps, wrong)
      r == TLCEval([j \in 1 .. st.n |-> w(j)])
  IN Verdict(UNION {Tag(j, r[j].bad) : j \in 1 .. st.n}, {},
             [st EXCEPT !.last = [j \in 1 .. st.n |-> r[j].last], !.enc = IF k = 8 THEN in ELSE @])

(* one message from each peer *)
Singles(st, in, k, to, extra(_, _)) ==
  LET bad(j) == Wrong(in[j], MsgSize(k, st.n, st.t), k, j, to, st.ep[j], st.sid) \cup Late(in[j], st.last[j], st.eps) \cup extra(in[j], j)
  IN UNION {Tag(j, bad(j)) : j \in 1 .. st.n}
NoExtra(m, j) == {}
Stamps(st, in) == [j \in 1 .. st.n |-> in[j].ts]

Tp12(st, in) ==
  Verdict(Singles(st, in, 6, Bcast, NoExtra), {},
          [st EXCEPT !.last = Stamps(st, in), !.com = [j \in 1 .. st.n |-> in[j].com]])

(* complaints: m.count declared, m.list the first n entries of the list *)
Named(m, n) == {m.list[k] : k \in 1 .. (IF m.count > n THEN n ELSE m.count)}
BadList(m, n) ==
       If(m.count > n, "count")
  \cup If(m.count <= n /\ ~(Named(m, n) \subseteq 1 .. n), "accused")
  \cup If(m.count <= n /\ Cardinality(Named(m, n)) # m.count, "dup")
Tp16(st, in) ==
  LET extra(m, j) == BadList(m, st.n)
      b   == Singles(st, in, 9, Bcast, extra)
      cpl == UNION {{<<j, a>> : a \in Named(in[j], st.n) \cap (1 .. st.n)} : j \in 1 .. st.n}
      c   == Cardinality(cpl)
      v   == Verdict(b, {}, [st EXCEPT !.last = Stamps(st, in), !.cpl = cpl])
      w   == IF c > st.t * st.t THEN [v EXCEPT !.ok = "no", !.why = @ \cup {"many"}]
             ELSE IF c = st.t * st.t /\ v.ok = "yes" THEN [v EXCEPT !.ok = "any", !.why = {"many"}]
             ELSE v
  IN w @@ [full |-> c >= st.t * st.t]      \* whether their number may be reported

(* step 18: resolution of the complaints; in[a] for every accused a, with    *)
(* in[a].rev a sequence of [c |-> complainer, key |-> ...].  Blamed peers:   *)
Judge(st, a, c, key) ==     \* [must, may]
  LET m == st.enc[a][c]
      s == Opened(key, m)
  IN IF ~MacOk(key, m) \/ s = NoShare THEN [must |-> {a}, may |-> {a}]
     ELSE IF s[1] # c THEN [must |-> {a}, may |-> {a}]
     ELSE IF ~ShareOk(st.com[a], c, s) THEN [must |-> {a}, may |-> {a}]
     ELSE IF Odd(st.com[a]) THEN [must |-> {}, may |-> {a, c}] ELSE [must |-> {c}, may |-> {c}]
Answer(st, m, a) ==
  LET w == Wrong(m, RevealSize(Cardinality(Accusers(st, a))), 11, a, 0, st.ep[a], st.sid) \cup Late(m, st.last[a], st.eps)
      open[k \in 0 .. Len(m.rev)] == IF k = 0 THEN Accusers(st, a) ELSE open[k - 1] \ {m.rev[k].c}
      j(k) == IF m.rev[k].c \in open[k - 1] THEN Judge(st, a, m.rev[k].c, m.rev[k].key) ELSE [must |-> {a}, may |-> {a}]
      js   == TLCEval([k \in 1 .. Len(m.rev) |-> j(k)])
  IN IF w # {} THEN [must |-> {a}, may |-> {a}]
     ELSE [must |-> UNION {js[k].must : k \in DOMAIN js} \cup If(open[Len(m.rev)] # {}, a),
           may  |-> UNION {js[k].may : k \in DOMAIN js} \cup If(open[Len(m.rev)] # {}, a)]
Accused(st) == {a \in 1 .. st.n : Accusers(st, a) # {}}
Tp18(st, in) ==
  LET r == TLCEval([a \in Accused(st) |-> Answer(st, in[a], a)])
  IN [ok |-> "no", why |-> {"complaint"}, must |-> UNION {r[a].must : a \in DOMAIN r}, may |-> UNION {r[a].may : a \in DOMAIN r}, st |-> <<>>]

Tp20(st, in) ==
  LET extra(m, j) == If(m.digest # Digest(st.tr), "transcript")
  IN Verdict(Singles(st, in, 20, 0, extra), {}, [st EXCEPT !.last = Stamps(st, in)])
Tp22(st, in) ==
  LET extra(m, j) == If(m.text # "OK", "ack")
  IN Verdict(Singles(st, in, 22, 0, extra), {}, [st EXCEPT !.last = Stamps(st, in)])

TpCall(st, in, now) ==
  LET v == CASE st.stage = "1"  -> Yes(st)
             [] st.stage = "4"  -> Tp4(st, in, now)
             [] st.stage = "6"  -> TpRoute(st, in, 4)
             [] st.stage = "8"  -> TpRoute(st, in, 5)
             [] st.stage = "12" -> Tp12(st, in)
             [] st.stage = "14" -> TpRoute(st, in, 8)
             [] st.stage = "16" -> Tp16(st, in)
             [] st.stage = "18" -> Tp18(st, in)
             [] st.stage = "20" -> Tp20(st, in)
             [] st.stage = "22" -> Tp22(st, in)
             [] OTHER -> No({"over"})
  IN IF v.ok = "no" THEN v ELSE [v EXCEPT !.st.stage = TpAfter(v.st)]

(* ---------------------------------------------------------------- peers *)
PeerStart(m, now, eps) ==
  LET b == Wrong(m, MsgSize(0, 0, 0), 0, 0, Bcast, m.pk, m.sid) \cup First(m, now, eps)
           \cup If(~ParamsOk(m.n, m.t, 1), "params")
  IN [ok |-> IF b = {} THEN "yes" ELSE "no", why |-> b, must |-> {}, may |-> {},
      st |-> [stage |-> "2", n |-> m.n, t |-> m.t, eps |-> eps, sid |-> m.sid, tppk |-> m.pk, tplast |-> m.ts, idx |-> 0,
              last |-> <<>>, ep |-> <<>>, com |-> <<>>, xs |-> <<>>, cpl |-> {}, hsbad |-> {}, tr |-> <<m.raw>>]]

PeerInSize(st) ==
  CASE st.stage = "2" -> MsgSize(1, st.n, st.t)
    [] st.stage = "5" -> MsgSize(3, st.n, st.t)
    [] st.stage \in {"7", "9"} -> st.n * MsgSize(4, st.n, st.t)
    [] st.stage = "13" -> MsgSize(7, st.n, st.t)
    [] st.stage = "15" -> st.n * MsgSize(8, st.n, st.t)
    [] st.stage = "17" -> MsgSize(10, st.n, st.t)
    [] st.stage = "21" -> MsgSize(21, st.n, st.t)
    [] OTHER -> 0
Mine(st) == {c \in 1 .. st.n : <<c, st.idx>> \in st.cpl}
PeerOutSize(st) ==
  CASE st.stage = "2" -> MsgSize(2, st.n, st.t) + LtSize
    [] st.stage \in {"5", "7"} -> st.n * MsgSize(4, st.n, st.t)
    [] st.stage = "9" -> MsgSize(6, st.n, st.t)
    [] st.stage = "13" -> st.n * MsgSize(8, st.n, st.t)
    [] st.stage = "15" -> MsgSize(9, st.n, st.t)
    [] st.stage = "17" -> 0
    [] st.stage = "17a" -> IF Mine(st) = {} THEN 0 ELSE RevealSize(Cardinality(Mine(st)))
    [] st.stage = "19" -> MsgSize(20, st.n, st.t)
    [] st.stage = "21" -> MsgSize(22, st.n, st.t)
    [] OTHER -> 0

(* the TP's envelope *)
Envelope(st, m, k) == Wrong(m, MsgSize(k, st.n, st.t), k, 0, Bcast, st.tppk, st.sid) \cup Late(m, st.tplast, st.eps)
(* one message of each peer, to this peer or to everybody *)
FromPeers(st, ms, k, to, extra(_, _)) ==
  UNION {Tag(i, Wrong(ms[i], MsgSize(k, st.n, st.t), k, i, to, st.ep[i], st.sid) \cup Late(ms[i], st.last[i], st.eps) \cup extra(ms[i], i)) : i \in 1 .. st.n}
Quiet(v) == [v EXCEPT !.must = {}, !.may = {}]      \* peers report nobody

P2(st, m) ==
  LET b == Wrong(m, MsgSize(1, st.n, st.t), 1, 0, m.to, st.tppk, st.sid) \cup Late(m, st.tplast, st.eps) \cup If(m.to \notin 1 .. st.n, "index")
  IN Verdict(Tag(0, b), {}, [st EXCEPT !.stage = "5", !.idx = m.to, !.tplast = m.ts])

(* a channel key other than the one the peer's own channel end has may be    *)
(* refused at once; the channel to that peer does not come into being        *)
P5(st, m, now) ==
  LET e == Envelope(st, m, 3)
      b(i) == Wrong(m.inner[i], MsgSize(2, st.n, st.t), 2, i, Bcast, m.inner[i].pk, st.sid) \cup First(m.inner[i], now, st.eps)
      bad == {i \in 1 .. st.n : ~m.inner[i].genuine}
  IN Verdict(Tag(0, e) \cup UNION {Tag(i, b(i)) : i \in 1 .. st.n}, {<<i, "handshake">> : i \in bad},
             [st EXCEPT !.stage = "7", !.tplast = m.ts, !.tr = Append(@, m.raw), !.last = [i \in 1 .. st.n |-> m.inner[i].ts],
                        !.ep = [i \in 1 .. st.n |-> m.inner[i].pk], !.hsbad = {"in", "out"} \X bad])

(* handshake messages that are not those of the genuine channel may be       *)
(* refused at once and make the channel unusable at the latest when it is    *)
(* needed                                                                    *)
P7(st, ms) ==
  LET bad == {i \in 1 .. st.n : ~ms[i].genuine} IN
  Verdict(FromPeers(st, ms, 4, st.idx, NoExtra), {<<i, "handshake">> : i \in bad},
          [st EXCEPT !.stage = "9", !.last = Stamps(st, ms), !.hsbad = @ \cup {<<"in", i>> : i \in bad}])
P9(st, ms) ==
  LET bad == {i \in 1 .. st.n : ~ms[i].genuine} IN
  Verdict(FromPeers(st, ms, 5, st.idx, NoExtra), {<<i, "handshake">> : i \in bad},
          [st EXCEPT !.stage = "13", !.last = Stamps(st, ms), !.hsbad = @ \cup {<<"out", i>> : i \in bad}])
P13(st, m) ==
  LET e == Envelope(st, m, 7)
      hs == {x \in st.hsbad : x[1] = "out"}
  IN Verdict(Tag(0, e) \cup FromPeers(st, m.inner, 6, Bcast, NoExtra) \cup {<<x[2], "handshake">> : x \in hs}, {},
             [st EXCEPT !.stage = "15", !.tplast = m.ts, !.tr = Append(@, m.raw), !.last = Stamps(st, m.inner),
                        !.com = [i \in 1 .. st.n |-> m.inner[i].com]])
(* a share message carries: genuine (its handshake part), mac (authenticator *)
(* correct), share (what it opens to, or NoShare)                              *)
P15(st, ms) ==
  LET extra(m, i) == If(~m.genuine \/ <<"in", i>> \in st.hsbad, "handshake") \cup If(m.share = NoShare, "cipher")
  IN Verdict(FromPeers(st, ms, 8, st.idx, extra), {<<i, "mac">> : i \in {k \in 1 .. st.n : ~ms[k].mac}},
             [st EXCEPT !.stage = "17", !.last = Stamps(st, ms), !.xs = [i \in 1 .. st.n |-> ms[i].share]])
MustComplain(st) == {i \in 1 .. st.n \ {st.idx} : ~ShareOk(st.com[i], st.idx, st.xs[i])}
(* the index that comes with a share is redundant for the recipient *)
MayComplain(st)  == {i \in 1 .. st.n \ {st.idx} : Odd(st.com[i]) \/ ~ShareOk(st.com[i], st.idx, st.xs[i]) \/ st.xs[i][1] # st.idx}

P17(st, m) ==
  LET e == Envelope(st, m, 10)
      extra(x, i) == If(x.count > st.n, "count")
      g == {<<i, "list">> : i \in {k \in 1 .. st.n : BadList(m.inner[k], st.n) # {}}}
      cpl == UNION {{<<i, a>> : a \in Named(m.inner[i], st.n) \cap (1 .. st.n)} : i \in 1 .. st.n}
  IN Verdict(Tag(0, e) \cup FromPeers(st, m.inner, 9, Bcast, extra), g,
             [st EXCEPT !.stage = IF \E i \in 1 .. st.n : m.inner[i].count > 0 THEN "17a" ELSE "19", !.tplast = m.ts,
                        !.tr = Append(@, m.raw), !.last = Stamps(st, m.inner), !.cpl = cpl])
P21(st, m) ==
  LET e == Envelope(st, m, 21) IN
  Verdict(Tag(0, e \cup If(m.text # "OK", "refused")), {}, [st EXCEPT !.stage = "end", !.tplast = m.ts])

PeerCall(st, in, now) ==
  Quiet(CASE st.stage = "2"   -> P2(st, in)
          [] st.stage = "5"   -> P5(st, in, now)
          [] st.stage = "7"   -> P7(st, in)
          [] st.stage = "9"   -> P9(st, in)
          [] st.stage = "13"  -> P13(st, in)
          [] st.stage = "15"  -> P15(st, in)
          [] st.stage = "17"  -> P17(st, in)
          [] st.stage = "17a" -> Yes([st EXCEPT !.stage = "doomed"])
          [] st.stage = "19"  -> Yes([st EXCEPT !.stage = "21"])
          [] st.stage = "21"  -> P21(st, in)
          [] st.stage = "end" -> Yes(st)
          [] OTHER -> No({"over"}))
=============================================================================
