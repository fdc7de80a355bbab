----------------------------- MODULE TpDkgTrace ----------------------------
(* Conformance of recorded key generation sessions, on the bytes of the      *)
(* messages.  Events: tpstart, peerstart, step (one call of a party, 0 the   *)
(* TP), arm/probe (a call that was made on a copy of the session with a      *)
(* variation of the next input), after (call on a party that failed), end.   *)
EXTENDS TraceBase, Prims, Wire

(* ---------------------------------------------------------------- wire format *)
Num4(x) == IF BByte(x, 0) >= 64 THEN -1 ELSE BByte(x, 0) * 16777216 + BByte(x, 1) * 65536 + BByte(x, 2) * 256 + BByte(x, 3)
Envel(x) == [sig |-> BSub(x, 0, 64), body |-> BSub(x, 64, BLen(x)), raw |-> x,
            msgno |-> BByte(x, 64), len |-> Num4(BSub(x, 65, 69)), from |-> BByte(x, 69), to |-> BByte(x, 70),
            ts |-> BSub(x, 71, 79), sid |-> BSub(x, 79, 111)]
Body(x, i, j) == BSub(x, 111 + i, 111 + j)
Slice(x, off, size) == BSub(x, off, off + size)

BSigned(m, pk)   == EdVerify(pk, m.body, m.sig)
BLtSigned(m, pk) == EdVerify(pk, m.raw, m.lt)

S == INSTANCE Threshold WITH Add <- SAdd, Sub <- SSub, Mul <- SMul, Inv <- SInv, Num <- SInt,
                             GAdd <- PAdd, GMul <- PMul, GValid <- PValid, GBase <- PBase, G0 <- P0, Canon <- SCanon
BShareOk(com, i, s) == S!ShareOk(com, i, s[2])
BOdd(com) == S!Degenerate(com)
Cipher(m) == Body(m.raw, 64, 113)
BMacOk(key, m) == Hmac(key, Cipher(m)) = Body(m.raw, 113, 145)
BOpened(key, m) == LET p == AeadOpen(key, 0, Cipher(m)) IN IF p = "bad" \/ BLen(p) # 33 THEN <<-1, "">> ELSE <<BByte(p, 0), BSub(p, 1, 33)>>
RECURSIVE CatLen(_, _)
CatLen(tr, k) == IF k > Len(tr) THEN "" ELSE BCat(BCat(I2OSP(BLen(tr[k]), 4), tr[k]), CatLen(tr, k + 1))
BDigest(tr) == Blake2b(BCat(Ascii("tp dkg session transcript"), CatLen(tr, 1)), 32)

P == INSTANCE TpDkg WITH Signed <- BSigned, LtSigned <- BLtSigned, Le <- HexLe, Plus <- U64Add, Minus <- U64Sub,
                         ShareOk <- BShareOk, Odd <- BOdd, MacOk <- BMacOk, Opened <- BOpened, Digest <- BDigest

Seqn(n, f(_)) == TLCEval([i \in 1 .. n |-> f(i)])
With(m, f, v) == [x \in DOMAIN m \cup {f} |-> IF x = f THEN v ELSE m[x]]
Txt(x) == IF x = "4f4b" THEN "OK" ELSE x

M0(x) == TLCEval(With(With(With(Envel(x), "pk", Body(x, 0, 32)), "n", BByte(x, 175)), "t", BByte(x, 176)))
M2(x) == TLCEval(With(Envel(x), "pk", Body(x, 0, 32)))
M2L(x, k) == TLCEval(With(M2(BSub(x, 0, k)), "lt", BSub(x, k, k + 64)))
M6(x, t) == LET c(i) == Body(x, 32 * (i - 1), 32 * i) IN TLCEval(With(Envel(x), "com", Seqn(t, c)))
M9(x, n) == LET c(i) == BByte(x, 111 + i) IN TLCEval(With(With(Envel(x), "count", BByte(x, 111)), "list", Seqn(n, c)))
M11(x) == LET c(i) == [c |-> BByte(x, 111 + 33 * (i - 1)), key |-> Body(x, 33 * (i - 1) + 1, 33 * i)]
          IN TLCEval(With(Envel(x), "rev", Seqn((BLen(x) - 111) \div 33, c)))
M20(x) == TLCEval(With(Envel(x), "digest", Body(x, 0, 32)))
M21(x) == TLCEval(With(Envel(x), "text", Txt(Body(x, 0, 2))))
(* peer to peer: genuine iff the channel data is what the sender's channel   *)
(* produced for this receiver, and the two ends know each other's keys       *)
MP(x, want, ok) == TLCEval(With(Envel(x), "genuine", ok /\ BSub(x, 111, 159) = want))
M8(x, want, ok, key) ==
  LET h == Envel(x)
      s == IF key = "" THEN P!NoShare ELSE BOpened(key, h)
  IN TLCEval(With(With(With(h, "genuine", ok /\ Body(x, 0, 64) = want), "mac", key # "" /\ BMacOk(key, h)), "share", s))

(* ---------------------------------------------------------------- state *)
(* tp, p[i]: protocol states; em[i]: handshake data the peer's channels      *)
(* produced, by kind; key[i][j]: share key of the channel i to j; bc[i]:     *)
(* broadcasts delivered to i; tb: broadcasts sent; c7: commitments broadcast *)
(* stage "failed": the party has failed, "lost": the implementation accepted *)
(* what it must not (reported at that event), nothing more is said about it  *)
Lost == [stage |-> "lost"]
Failed(s) == [stage |-> "failed", hsbad |-> IF Has(s, "hsbad") THEN s.hsbad ELSE {}]

DStart(run) == [tp |-> [stage |-> "none"], p |-> <<>>, em |-> <<>>, key |-> <<>>, bc |-> <<>>, tb |-> <<>>, c7 |-> <<>>, ltsig |-> {}, arm |-> "",
                fin |-> {}, nv |-> <<>>]

Dim(st) == [n |-> st.tp.n, t |-> st.tp.t]

ParseTp(s, x) ==
  LET n == s.n  t == s.t
      one(k, f(_)) == LET z == P!MsgSize(k, n, t) g(j) == f(Slice(x, (j - 1) * z, z)) IN Seqn(n, g)
      two(k) == LET z == P!MsgSize(k, n, t) row(j) == LET g(i) == TLCEval(Envel(Slice(x, ((j - 1) * n + i - 1) * z, z))) IN Seqn(n, g) IN Seqn(n, row)
      z2 == P!MsgSize(2, n, t)
      f2(j) == M2L(Slice(x, (j - 1) * (z2 + 64), z2 + 64), z2)
      f6(y) == M6(y, t)
      f9(y) == M9(y, n)
      sz[j \in 0 .. n] == IF j = 0 THEN 0 ELSE P!TpInSize(s, j)
      off[j \in 0 .. n] == IF j = 0 THEN 0 ELSE off[j - 1] + sz[j]
  IN CASE s.stage = "1"  -> <<>>
       [] s.stage = "4"  -> Seqn(n, f2)
       [] s.stage = "6"  -> two(4)
       [] s.stage = "8"  -> two(5)
       [] s.stage = "12" -> one(6, f6)
       [] s.stage = "14" -> two(8)
       [] s.stage = "16" -> one(9, f9)
       [] s.stage = "18" -> TLCEval([a \in P!Accused(s) |-> M11(Slice(x, off[a - 1], sz[a]))])
       [] s.stage = "20" -> one(20, M20)
       [] s.stage = "22" -> one(22, M21)
       [] OTHER -> <<>>
TpInTotal(s) == LET f[j \in 1 .. s.n] == P!TpInSize(s, j) IN P!SumTo(f, s.n)

(* i: position of the peer whose input this is *)
ParsePeer(st, i, s, x) ==
  LET n == s.n  t == s.t
      inner(k, f(_)) == LET z == P!MsgSize(k, n, t) g(j) == f(Slice(x, 111 + (j - 1) * z, z)) IN With(Envel(x), "inner", Seqn(n, g))
      from(k, f(_, _)) == LET z == P!MsgSize(k, n, t) g(j) == f(Slice(x, (j - 1) * z, z), j) IN Seqn(n, g)
      f6(y) == M6(y, t)
      f9(y) == M9(y, n)
      want(j, k) == IF j \in DOMAIN st.em /\ k \in DOMAIN st.em[j] THEN st.em[j][k][i] ELSE ""
      want0(j) == IF j \in DOMAIN st.em /\ "2" \in DOMAIN st.em[j] THEN st.em[j]["2"] ELSE ""
      f2(y, j) == TLCEval(With(M2(y), "genuine", Body(y, 32, 64) = want0(j)))
      knows(a, b) == a \in DOMAIN st.nv /\ st.nv[a][b] = want0(b)
      sound(a, h) == "hsbad" \in DOMAIN st.p[a] /\ h \notin st.p[a].hsbad
      g4(y, j) == MP(y, want(j, "4"), knows(j, i))
      g5(y, j) == MP(y, want(j, "5"), sound(j, <<"in", i>>))
      g8(y, j) == M8(y, want(j, "8"), knows(i, j) /\ sound(j, <<"out", i>>), IF j \in DOMAIN st.key THEN st.key[j][i] ELSE "")
  IN CASE s.stage = "2"  -> Envel(x)
       [] s.stage = "5"  -> LET z == P!MsgSize(2, n, t) g(j) == f2(Slice(x, 111 + (j - 1) * z, z), j) IN TLCEval(With(Envel(x), "inner", Seqn(n, g)))
       [] s.stage = "7"  -> from(4, g4)
       [] s.stage = "9"  -> from(5, g5)
       [] s.stage = "13" -> TLCEval(inner(6, f6))
       [] s.stage = "15" -> from(8, g8)
       [] s.stage = "17" -> TLCEval(inner(9, f9))
       [] s.stage = "21" -> M21(x)
       [] OTHER -> <<>>

(* ---------------------------------------------------------------- verdicts *)
PropOf(c) ==
  CASE c \in {"len", "sig", "lt", "size"} -> "C12"
    [] c \in {"msgno", "from", "to", "sid", "ts", "index"} -> "C13"
    [] c \in {"count", "accused", "dup", "ack"} -> "C16"
    [] c \in {"transcript", "refused"} -> "C19"
    [] c \in {"many", "complaint"} -> "C17"
    [] c \in {"handshake", "cipher"} -> "C11"
    [] c = "params" -> "C22"
    [] c = "over" -> "C14"
Accepts(v, ret) ==
       (IF v.ok = "no" /\ ret = 0 THEN {<<PropOf(c), "accepted in spite of: " \o c>> : c \in v.why} ELSE {})
  \cup Viol("C28", ~(v.ok = "yes" /\ ret # 0), "correct messages refused")

Blamed(e) == {e.blame[k].idx : k \in 1 .. Len(e.blame)} \ {0}
Reports(run, s, v, e) ==
  LET b == Blamed(e)
      full == e.nblame >= e.cap
  IN IF e.ret = 0 THEN Viol("C15", Len(e.blame) = 0, "report although the step succeeded")
     ELSE   (IF run.tphonest
             THEN Viol("C15", b \subseteq v.may, "blames a peer that followed the protocol")
                  \cup Viol("C15", b \subseteq {run.deviants[k] : k \in 1 .. Len(run.deviants)}, "blames a peer that followed the protocol")
             ELSE {})
       \cup Viol("C16", v.must \subseteq b \/ full, "violating peer not reported")
       \cup (IF s.stage = "18" THEN Viol("C17", (v.must \subseteq b \/ full) /\ b \subseteq v.may, "complaints resolved wrongly") ELSE {})
       \cup Viol("C16", \A k \in 1 .. Len(e.blame) :
                          LET r == e.blame[k] IN
                          IF r.idx = 0 THEN Has(v, "full") /\ v.full
                          ELSE r.idx \in 1 .. s.n /\ \E q \in 1 .. Len(r.nums) : r.nums[q] = r.idx, "report text or index")

(* ---------------------------------------------------------------- outputs *)
Mk(x, size, k, from, to, pk, sid, now) ==
  Viol("C28", BLen(x) = size /\ P!Wrong(Envel(x), size, k, from, to, pk, sid) = {} /\ HexLe(Envel(x).ts, now) /\ HexLe(now, Envel(x).ts), "malformed outgoing message")

SplitOk(e, i, want) == LET o == e.split[i] IN IF o[1] < 0 THEN FALSE ELSE BSub(e.out, o[1], o[1] + o[2]) = want
RECURSIVE CatFrom(_, _, _)
CatFrom(f(_), i, n) == IF i > n THEN "" ELSE BCat(f(i), CatFrom(f, i + 1, n))

TpOut(s, nx, in, e) ==     \* s before, nx after, in: parsed input
  LET n == s.n  t == s.t
      all(want) == Viol("C20", \A i \in 1 .. n : SplitOk(e, i, want), "broadcast not handed to every peer")
      bcast(k, f(_)) ==
        Mk(e.out, P!MsgSize(k, n, t), k, 0, P!Bcast, s.pk, s.sid, e.now) \cup all(e.out)
        \cup Viol("C20", BSub(e.out, 111, BLen(e.out)) = CatFrom(f, 1, n), "broadcast does not carry the peers' messages")
      route == LET part(i) == LET f(j) == in[j][i].raw IN CatFrom(f, 1, n)
               IN Viol("C20", \A i \in 1 .. n : SplitOk(e, i, part(i)), "message not handed to its addressee")
                  \cup Viol("C20", e.out = CatFrom(part, 1, n), "routed messages")
      raw(j) == in[j].raw
      none == Viol("C20", \A i \in 1 .. n : e.split[i][2] = 0, "nothing to send")
  IN (CASE s.stage = "1" ->
             LET z == P!MsgSize(1, n, t) f(i) == Slice(e.out, (i - 1) * z, z)
             IN UNION {Mk(f(i), z, 1, 0, i, s.pk, s.sid, e.now) : i \in 1 .. n} \cup Viol("C20", \A i \in 1 .. n : SplitOk(e, i, f(i)), "index not handed to its peer")
        [] s.stage = "4"  -> bcast(3, raw)
        [] s.stage \in {"6", "8", "14"} -> route
        [] s.stage = "12" -> bcast(7, raw)
        [] s.stage = "16" -> bcast(10, raw)
        [] s.stage = "20" -> Mk(e.out, P!MsgSize(21, n, t), 21, 0, P!Bcast, s.pk, s.sid, e.now) \cup all(e.out)
                             \cup Viol("C19", Txt(BSub(e.out, 111, 113)) = "OK", "success not announced")
        [] s.stage = "22" -> none)
     \cup Viol("C18", \A k \in 1 .. n : ~BHas(e.out, s.lt[k]), "long-term key relayed")

Secret(e, x) == \A k \in 1 .. Len(e.sec) : ~BHas(x, e.sec[k])
PeerOut(st, i, s, nx, e) ==
  LET n == s.n  t == s.t
      me == nx.idx
      pk == IF s.stage = "2" THEN BSub(e.out, 111, 143) ELSE s.pk
      row(k) == LET z == P!MsgSize(k, n, t) IN UNION {Mk(Slice(e.out, (j - 1) * z, z), z, k, me, j, pk, s.sid, e.now) : j \in 1 .. n}
      one(k, to) == Mk(e.out, P!MsgSize(k, n, t), k, me, to, pk, s.sid, e.now)
      m8(j) == LET z == P!MsgSize(8, n, t) IN Envel(Slice(e.out, (j - 1) * z, z))
      m9 == M9(e.out, n)
      named == {m9.list[k] : k \in 1 .. (IF m9.count > n THEN n ELSE m9.count)}
      m11 == M11(e.out)
      rev == {m11.rev[k].c : k \in 1 .. Len(m11.rev)}
  IN (CASE s.stage = "2"  -> LET z == P!MsgSize(2, n, t) x == BSub(e.out, 0, z) IN
                             Mk(x, z, 2, me, P!Bcast, pk, s.sid, e.now) \cup Viol("C28", EdVerify(st.tp.lt[i], x, BSub(e.out, z, z + 64)), "long-term signature")
        [] s.stage = "5"  -> row(4)
        [] s.stage = "7"  -> row(5)
        [] s.stage = "9"  -> one(6, P!Bcast) \cup Viol("C28", \A k \in 1 .. t : PValid(Body(e.out, 32 * (k - 1), 32 * k)), "commitments")
        [] s.stage = "13" -> row(8)
             \cup Viol("C28", \A j \in 1 .. n : BMacOk(e.keys[j], m8(j)), "share message authenticator")
             \cup Viol("C11", \A j \in 1 .. n : LET o == BOpened(e.keys[j], m8(j)) IN o # P!NoShare /\ o[1] = j /\ BShareOk(st.mycom[i], j, o), "dealt share does not fit the commitments")
        [] s.stage = "15" -> one(9, P!Bcast)
             \cup Viol("C17", m9.count <= n /\ Cardinality(named) = m9.count /\ P!MustComplain(nx) \subseteq named /\ named \subseteq P!MayComplain(nx), "wrong complaints")
             \cup Viol("C11", P!MustComplain(nx) \subseteq named, "inconsistent share accepted")
        [] s.stage = "17" -> {}
        [] s.stage = "17a" ->
             IF P!Mine(s) = {} THEN Viol("C18", e.out = "", "answer without complaint")
             ELSE Mk(e.out, P!RevealSize(Cardinality(P!Mine(s))), 11, me, 0, pk, s.sid, e.now)
                  \cup Viol("C18", rev = P!Mine(s), "keys revealed for others than the complainers")
                  \cup Viol("C17", P!Mine(s) \subseteq rev, "complaint left unanswered")
                  \cup Viol("C17", \A k \in 1 .. Len(m11.rev) : m11.rev[k].c \in 1 .. n /\ m11.rev[k].key = st.key[i][m11.rev[k].c], "revealed key does not open the share")
                  \cup Viol("C18", \A j \in 1 .. n \ P!Mine(s) : ~BHas(e.out, st.key[i][j]), "key revealed without complaint")
        [] s.stage = "19" -> one(20, 0) \cup Viol("C19", Body(e.out, 0, 32) = BDigest(s.tr), "transcript digest")
        [] s.stage = "21" -> one(22, 0) \cup Viol("C28", Txt(Body(e.out, 0, 2)) = "OK", "acknowledgement")
        [] OTHER -> {})
     \cup Viol("C18", Secret(e, e.out), "secret key in a message")
     \cup (IF s.stage = "17a" \/ i \notin DOMAIN st.key THEN {} ELSE Viol("C18", \A j \in 1 .. n : ~BHas(e.out, st.key[i][j]), "share key in a message"))
     \cup (IF s.stage \in {"13", "15", "17", "19", "21"} /\ i \in DOMAIN st.shares
           THEN Viol("C18", \A j \in 1 .. n : ~BHas(e.out, st.shares[i][j]), "share in clear") ELSE {})

(* ---------------------------------------------------------------- final share *)
FinalOk(s, e) ==     \* value under its own index, on the sum of the committed polynomials
  LET at(d) == S!CommitAt(s.com[d], SInt(s.idx), 1) IN
  /\ e.share[1] = s.idx
  /\ SCanon(e.share[2])
  /\ \A d \in 1 .. s.n : S!WellFormed(s.com[d])
  /\ PBase(e.share[2]) = S!GSum(at, 1, s.n)
Deviants(run) == {run.deviants[k] : k \in 1 .. Len(run.deviants)}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
R(st, b) == [st |-> st, bad |-> b]

(* ---------------------------------------------------------------- calls *)
TpVerdict(s, e, x) == IF BLen(x) # TpInTotal(s) THEN P!No({"size"}) ELSE P!TpCall(s, ParseTp(s, x), e.now)
PeerVerdict(st, i, s, e, x) == IF BLen(x) # P!PeerInSize(s) THEN P!No({"size"}) ELSE P!PeerCall(s, ParsePeer(st, i, s, x), e.now)

Finished(e) == e.ret = 0 /\ e.done = 1

TpStep(run, st, e) ==
  LET s == st.tp IN
  CASE s.stage \in {"none", "lost"} -> R(st, {})
    [] s.stage \in {"failed", "end"} -> R(st, Viol("C14", s.stage = "end" \/ (e.ret # 0 /\ e.done = 1), "call after failure"))
    [] OTHER ->
         LET v  == TLCEval(TpVerdict(s, e, e.in))
             acc == e.ret = 0
             nx == IF ~acc THEN Failed(s) ELSE IF v.ok = "no" THEN Lost ELSE v.st
             good == acc /\ v.ok # "no"
             sizes == Viol("C20", e.insz = TpInTotal(s) /\ e.outsz = P!TpOutSize(s) /\ \A j \in 1 .. s.n : e.inszs[j] = P!TpInSize(s, j), "announced sizes")
             \* an authentic announcement of success although the step failed
             leak == IF s.stage = "20" /\ ~acc /\ BLen(e.out) = P!MsgSize(21, s.n, s.t)
                     THEN Viol("C19", ~(BSigned(Envel(e.out), s.pk) /\ Txt(BSub(e.out, 111, 113)) = "OK"), "success announced in a failing step") ELSE {}
         IN R([st EXCEPT !.tp = IF good /\ v.st.stage \in {"6", "14", "18", "20"} /\ s.stage \in {"4", "12", "16"} THEN [nx EXCEPT !.tr = Append(@, e.out)] ELSE nx,
                         !.tb = IF acc /\ s.stage \in {"4", "12", "16"} THEN Append(@, e.out) ELSE @,
                         !.c7 = IF good /\ s.stage = "12" THEN v.st.com ELSE @],
              Accepts(v, e.ret) \cup Reports(run, s, v, e) \cup sizes \cup leak
              \cup (IF acc THEN Viol("C14", good => (e.done = 1 <=> nx.stage = "end"), "done state") ELSE Viol("C14", e.done = 1, "not finished after an error"))
              \cup (IF good THEN TpOut(s, nx, ParseTp(s, e.in), e) ELSE {}))

Kind(s) == CASE s.stage = "5" -> "4" [] s.stage = "7" -> "5" [] s.stage = "13" -> "8" [] OTHER -> ""
PeerStep(run, st, e) ==
  LET i == e.who  s == st.p[i] IN
  CASE s.stage = "lost" -> R(st, {})
    [] s.stage = "failed" -> R(st, Viol("C14", e.ret # 0 /\ e.done = 1, "call after failure"))
    [] s.stage = "doomed" ->      \* complaints were broadcast: this session must not end well
         R([st EXCEPT !.p[i] = IF e.ret # 0 THEN Failed(s) ELSE @],
           Viol("C14", ~Finished(e), "session with complaints presented as success")
           \cup Viol("C17", ~(Finished(e) \/ (e.ret = 0 /\ BLen(e.out) = P!MsgSize(22, s.n, s.t))), "session with complaints presented as success"))
    [] OTHER ->
         LET v   == TLCEval(PeerVerdict(st, i, s, e, e.in))
             acc == e.ret = 0
             good == acc /\ v.ok # "no"
             nx0 == IF ~acc THEN Failed(s) ELSE IF v.ok = "no" THEN Lost ELSE v.st
             nx  == IF good /\ s.stage = "2" THEN With(nx0, "pk", BSub(e.out, 111, 143)) ELSE nx0
             n == s.n
             z == P!MsgSize(IF s.stage = "13" THEN 8 ELSE 4, n, s.t)
             hs(j) == LET o == (j - 1) * z + 111 IN BSub(e.out, o, o + (IF s.stage = "13" THEN 64 ELSE 48))
             m8(j) == Envel(Slice(e.out, (j - 1) * z, z))
             theirs(j) == LET o == 111 + (j - 1) * P!MsgSize(2, n, s.t) IN BSub(e.in, o + 143, o + 175)
             c6(k) == Body(e.out, 32 * (k - 1), 32 * k)
             sv(j) == LET o == BOpened(e.keys[j], m8(j)) IN IF o = P!NoShare THEN "ff" ELSE o[2]
             st1 == [st EXCEPT !.p[i] = nx,
                       !.em = IF good /\ s.stage = "2" THEN Put(@, i, [x \in {"2"} |-> BSub(e.out, 143, 175)])
                               ELSE IF good /\ Kind(s) # "" THEN Put(@, i, Put(IF i \in DOMAIN @ THEN @[i] ELSE <<>>, Kind(s), Seqn(n, hs))) ELSE @,
                       !.key = IF good /\ s.stage = "13" THEN Put(@, i, e.keys) ELSE @,
                       !.nv = IF good /\ s.stage = "5" THEN Put(@, i, Seqn(n, theirs)) ELSE @,
                       !.bc = IF acc /\ s.stage \in {"5", "13", "17"} THEN Put(@, i, Append(IF i \in DOMAIN @ THEN @[i] ELSE <<>>, e.in)) ELSE @,
                       !.fin = IF good /\ s.stage = "21" THEN @ \cup {i} ELSE @]
             st2 == With(st1, "mycom", IF good /\ s.stage = "9" THEN Put(IF Has(st, "mycom") THEN st.mycom ELSE <<>>, i, Seqn(s.t, c6)) ELSE IF Has(st, "mycom") THEN st.mycom ELSE <<>>)
             st3 == With(st2, "shares", IF good /\ s.stage = "13" THEN Put(IF Has(st, "shares") THEN st.shares ELSE <<>>, i, Seqn(n, sv)) ELSE IF Has(st, "shares") THEN st.shares ELSE <<>>)
             sizes == Viol("C20", e.insz = P!PeerInSize(s) /\ e.outsz = P!PeerOutSize(s), "announced sizes")
         IN R(TLCEval(st3),
              Accepts(v, e.ret) \cup sizes
              \cup (IF acc THEN Viol("C14", good => ((s.stage # "end" /\ nx.stage # "end") => e.done = 0), "finished early") ELSE Viol("C14", e.done = 1, "not finished after an error"))
              \cup (IF good THEN PeerOut(st2, i, s, nx, e) ELSE {})
              \cup (IF good /\ s.stage = "21" /\ i \notin Deviants(run) THEN Viol("C11", FinalOk(s, e), "final share") ELSE {})
              \cup (IF ~acc /\ s.stage = "21" THEN Viol("C14", ~FinalOk(s, e), "share presented although the session failed") ELSE {}))

(* a call on a copy of the session; the state is unchanged *)
RECURSIVE Patched(_, _, _)
Patched(x, ps, k) == IF k > Len(ps) THEN x ELSE Patched(BPatch(x, ps[k][1], ps[k][2]), ps, k + 1)
Probe(st, e) ==
  LET x == IF Has(e, "in") THEN e.in ELSE Patched(st.arm, e.patch, 1)
      run == [tphonest |-> \A k \in 1 .. Len(e.dis) : e.dis[k] # 0, deviants |-> e.dis]
      s == IF e.who = 0 THEN st.tp ELSE st.p[e.who]
  IN IF e.crash # "" THEN {<<Focus, "crash: " \o e.crash>>}
     ELSE IF s.stage \in {"lost", "failed", "none", "end", "doomed"} THEN {}
     ELSE LET v == TLCEval(IF e.who = 0 THEN TpVerdict(s, e, x) ELSE PeerVerdict(st, e.who, s, e, x)) IN
          (IF Has(e, "outlen")
           THEN Viol("C20", e.outlen < (IF e.who = 0 THEN P!TpOutSize(s) ELSE P!PeerOutSize(s)) => e.ret # 0, "output larger than the buffer")
           ELSE Accepts(v, e.ret) \cup (IF e.who = 0 THEN Reports(run, s, v, e) ELSE {}))
          \cup (IF e.ret # 0 THEN Viol("C14", e.done = 1 /\ \A k \in 1 .. Len(e.again) : e.again[k].ret # 0 /\ e.again[k].done = 1, "failure is not final") ELSE {})

(* ---------------------------------------------------------------- events *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
DStep(run, st, e) ==
  CASE e.op = "tpstart" ->
         LET m == M0(e.msg0)
             ok == P!ParamsOk(e.n, e.t, e.name)
         IN R(IF e.ret # 0 \/ ~ok THEN st
              ELSE [st EXCEPT !.tp = P!TpInit(e.n, e.t, e.eps, e.now, m.sid, m.pk, e.lt, e.msg0)],
              Viol("C22", (e.ret = 0) <=> ok, "parameters of a session")
              \cup (IF e.ret = 0 /\ ok THEN Mk(e.msg0, P!MsgSize(0, 0, 0), 0, 0, P!Bcast, m.pk, m.sid, e.now) \cup Viol("C22", m.n = e.n /\ m.t = e.t, "parameters announced") ELSE {}))
    [] e.op = "peerstart" ->
         LET v == TLCEval(P!PeerStart(M0(e.msg0), e.now, e.eps)) IN
         R([st EXCEPT !.p = Put(@, e.who, IF e.ret # 0 THEN Failed(v.st) ELSE IF v.ok = "no" THEN Lost ELSE v.st)],
           Viol("C22", (e.ret = 0) <=> (v.ok = "yes"), "joining a session")
           \cup (IF v.ok = "no" /\ e.ret = 0 THEN {<<PropOf(c), "joined in spite of: " \o c>> : c \in v.why} ELSE {})
           \cup Viol("C28", ~(v.ok = "yes" /\ e.ret # 0), "correct first message refused"))
    [] e.op = "step" -> IF e.who = 0 THEN TpStep(run, st, e) ELSE PeerStep(run, st, e)
    [] e.op = "arm" -> R([st EXCEPT !.arm = e.in], {})
    [] e.op = "probe" -> R(st, Probe(st, e))
    [] e.op = "twin" -> R(st, Viol("C21", e.a = e.b, "logging changes the outcome"))
    [] e.op = "after" -> R(st, Viol("C14", e.ret # 0 /\ e.done = 1, "call after failure"))
    [] e.op = "end" ->
         LET done == {i \in 1 .. Len(e.peers) : e.peers[i] = 1}
             differs == \E i \in DOMAIN st.bc : ~Prefix(st.bc[i], st.tb)
         IN R(st, Viol("C19", differs => (e.tp = 0 /\ done = {}), "success although broadcasts differed")
                  \cup Viol("C14", done \subseteq st.fin, "finished without success")
                  \cup Viol("C28", (Has(run, "honest") /\ run.honest) => (e.tp = 1 /\ done = 1 .. Len(e.peers)), "honest session did not complete"))
=============================================================================
