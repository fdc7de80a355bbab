------------------------------ MODULE TpDkgMC ------------------------------
(* Exhaustive model of the key generation protocol: the two state machines   *)
(* of TpDkg driven through a whole session in which the messages deviate as  *)
(* TpPlan lists (none, each single one, and the multi-step complaint cases). *)
(* Cryptography is symbolic: a signature is the pair of key and content, a   *)
(* digest is the digested value, a ciphertext the pair of key and plaintext; *)
(* polynomials are over a small field and committed to in the clear.         *)
(* Participants only interact through the trusted party's calls, each of     *)
(* which needs the messages of all peers, so the order of the peers' calls   *)
(* between two calls of the TP does not matter and is fixed here.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, SequencesExt

N == atoi(IOEnv.N)
T == atoi(IOEnv.T)
Eps == 5
Now == 100
Q == 11
Peers == 1 .. N
PL == INSTANCE TpPlan WITH Who <- 1 .. N

(* ---------------------------------------------------------------- symbols *)
Core(w) == <<w.msgno, w.len, w.from, w.to, w.ts, w.sid, w.b>>
MSigned(m, pk) == m.sig = <<pk, Core(m)>>
MLt(m, pk) == m.lt = <<pk, m.raw>>
MLe(a, b) == a <= b
MPlus(a, b) == a + b
MMinus(a, b) == a - b
EvalC(c, x) == LET f[k \in 1 .. Len(c) + 1] == IF k > Len(c) THEN 0 ELSE (c[k] + x * f[k + 1]) % Q IN f[1]
MShareOk(c, i, s) == s[2] \in 0 .. Q - 1 /\ (\A k \in DOMAIN c : c[k] \in 0 .. Q - 1) /\ EvalC(c, i) = s[2]
MOdd(c) == \E k \in DOMAIN c : c[k] = 0
MMac(key, m) == m.b.mac = <<key, m.b.ct>>
MOpened(key, m) == IF m.b.ct[1] = key THEN m.b.ct[2] ELSE <<-1, "">>
MDigest(tr) == tr
P == INSTANCE TpDkg WITH Signed <- MSigned, LtSigned <- MLt, Le <- MLe, Plus <- MPlus, Minus <- MMinus, ShareOk <- MShareOk, Odd <- MOdd,
                         MacOk <- MMac, Opened <- MOpened, Digest <- MDigest

Sk(o, i) == <<"sk", o, i>>
Nk(o, i) == <<"nk", o, i>>
Lt(i) == <<"lt", i>>
Sid(o) == <<"sid", o>>
Chan(o, i, j) == <<"chan", o, i, j>>
Poly(o, d) == [k \in 1 .. T |-> 1 + ((3 * d + 5 * k + 2 * o) % (Q - 1))]
Dealt(o, d, j) == <<j, EvalC(Poly(o, d), j)>>

Seal(w, key) == [w EXCEPT !.sig = <<key, Core(w)>>]
Msg(k, size, from, to, sid, b, key) == Seal([msgno |-> k, len |-> size, from |-> from, to |-> to, ts |-> Now, sid |-> sid, b |-> b, sig |-> <<>>], key)
Sz(k) == P!MsgSize(k, N, T)
Share8(key, pt, hs) == [hs |-> hs, ct |-> <<key, pt>>, mac |-> <<key, <<key, pt>>>>]

(* what an undisturbed session o contains; slot as in TpPlan *)
RECURSIVE Plain(_, _, _, _)
Plain(o, k, a, c) ==
  CASE k = 0 -> Msg(0, Sz(0), 0, 255, Sid(o), [pk |-> Sk(o, 0), dst |-> "dst", n |-> N, t |-> T], Sk(o, 0))
    [] k = 1 -> Msg(1, Sz(1), 0, c, Sid(o), <<>>, Sk(o, 0))
    [] k = 2 -> Msg(2, Sz(2), a, 255, Sid(o), [pk |-> Sk(o, a), nk |-> Nk(o, a)], Sk(o, a))
    [] k = 3 -> Msg(3, Sz(3), 0, 255, Sid(o), [i \in Peers |-> Plain(o, 2, i, 255)], Sk(o, 0))
    [] k = 4 -> Msg(4, Sz(4), a, c, Sid(o), [hs |-> <<"hs1", o, a, c, Nk(o, c)>>], Sk(o, a))
    [] k = 5 -> Msg(5, Sz(5), a, c, Sid(o), [hs |-> <<"hs2", o, a, c, TRUE>>], Sk(o, a))
    [] k = 6 -> Msg(6, Sz(6), a, 255, Sid(o), [com |-> Poly(o, a)], Sk(o, a))
    [] k = 7 -> Msg(7, Sz(7), 0, 255, Sid(o), [i \in Peers |-> Plain(o, 6, i, 255)], Sk(o, 0))
    [] k = 8 -> Msg(8, Sz(8), a, c, Sid(o), Share8(Chan(o, a, c), Dealt(o, a, c), <<"hs3", o, a, c, TRUE>>), Sk(o, a))
    [] k = 9 -> Msg(9, Sz(9), a, 255, Sid(o), [count |-> 0, list |-> [i \in Peers |-> 0]], Sk(o, a))
    [] k = 10 -> Msg(10, Sz(10), 0, 255, Sid(o), [i \in Peers |-> Plain(o, 9, i, 255)], Sk(o, 0))
    [] k = 20 -> Msg(20, Sz(20), a, 0, Sid(o), [digest |-> <<Plain(o, 0, 0, 0), Plain(o, 3, 0, 0), Plain(o, 7, 0, 0), Plain(o, 10, 0, 0)>>], Sk(o, a))
    [] k = 21 -> Msg(21, Sz(21), 0, 255, Sid(o), [text |-> "OK"], Sk(o, 0))
    [] k = 22 -> Msg(22, Sz(22), a, 0, Sid(o), [text |-> "OK"], Sk(o, a))
BKind(st) == CASE st = "5" -> 3 [] st = "13" -> 7 [] st = "17" -> 10
SrcKind(who, st, slot) == IF st \in {"5", "13", "17"} /\ slot[1] = 0 THEN BKind(st) ELSE PL!KindAt(who, st)

(* ---------------------------------------------------------------- deviations *)
Junk == <<"junk">>
FlipB(k, b) ==
  CASE k = 0 -> [b EXCEPT !.dst = "other"] [] k = 2 -> [b EXCEPT !.nk = Junk] [] k \in {4, 5} -> [b EXCEPT !.hs = Junk]
    [] k = 6 -> [b EXCEPT !.com[1] = 0 - 1] [] k = 8 -> [b EXCEPT !.ct[1] = Junk] [] k = 9 -> [b EXCEPT !.count = @ + 1]
    [] k = 11 -> [b EXCEPT !.rev[1].key = Junk] [] k = 20 -> [b EXCEPT !.digest = Junk] [] k \in {21, 22} -> [b EXCEPT !.text = "XX"]
    [] k \in {3, 7, 10} -> [b EXCEPT ![1].sig = Junk] [] OTHER -> b
Flip(w, k, f) ==
  CASE f = "sig" -> [w EXCEPT !.sig = Junk] [] f = "msgno" -> [w EXCEPT !.msgno = @ + 64] [] f = "len" -> [w EXCEPT !.len = @ + 1]
    [] f = "from" -> [w EXCEPT !.from = (@ + 1) % 256] [] f = "to" -> [w EXCEPT !.to = (@ + 1) % 256] [] f = "ts" -> [w EXCEPT !.ts = @ + 1]
    [] f = "sid" -> [w EXCEPT !.sid = Junk] [] f = "body" -> [w EXCEPT !.b = FlipB(k, @)]
Header(w, f, v) ==
  CASE f = "msgno" -> [w EXCEPT !.msgno = v] [] f = "len" -> [w EXCEPT !.len = v] [] f = "from" -> [w EXCEPT !.from = v] [] f = "to" -> [w EXCEPT !.to = v]
    [] f = "dts" -> [w EXCEPT !.ts = @ + v] [] f = "sid" -> [w EXCEPT !.sid = Junk]
Committed(c, how, k) ==
  LET k2 == 1 + (k % T) IN
  CASE how = "junk" -> [c EXCEPT ![k] = 0 - 1] [] how = "highbit" -> [c EXCEPT ![k] = 0 - 2] [] how = "identity" -> [c EXCEPT ![k] = 0]
    [] how = "swap" -> [c EXCEPT ![k] = c[k2], ![k2] = c[k]] [] how = "dup" -> [c EXCEPT ![k] = c[k2]] [] how = "generator" -> [c EXCEPT ![k] = 1]
Reshare(b, how, s, r) ==
  LET key == Chan(1, s, r)
      again(pt) == Share8(key, pt, b.hs)
      pt == Dealt(1, s, r)
      r2 == 1 + (r % N)
  IN CASE how = "value" -> again(<<r, (pt[2] + 1) % Q>>) [] how = "index" -> again(<<r2, pt[2]>>) [] how = "noncanon" -> again(<<r, pt[2] + Q>>)
       [] how = "highbit" -> again(<<r, pt[2] + 3 * Q>>) [] how = "zero" -> again(<<r, 0>>) [] how = "other" -> again(<<r, Dealt(1, s, r2)[2]>>)
       [] how = "otheridx" -> again(Dealt(1, s, r2)) [] how = "hs" -> [b EXCEPT !.hs = Junk] [] how = "mac" -> [b EXCEPT !.mac = Junk]
       [] how = "cipher" -> [b EXCEPT !.ct = <<Junk, @[2]>>, !.mac = <<key, <<Junk, b.ct[2]>>>>]
Listed(l) == [i \in Peers |-> IF i <= Len(l) THEN l[i] ELSE 0]
Revealed(rev, d, s) ==
  LET n == Len(rev)  k == 1 + (d.k % n)  k2 == 1 + (k % n) IN
  CASE d.how \in {"wrongkey", "zerokey"} -> [rev EXCEPT ![k].key = Junk]
    [] d.how = "happy" -> [rev EXCEPT ![k] = [c |-> d.v, key |-> IF d.v \in Peers THEN Chan(1, s, d.v) ELSE @.key]]
    [] d.how = "who" -> [rev EXCEPT ![k].c = d.v]
    [] d.how = "dup" -> [rev EXCEPT ![k] = rev[k2]]
    [] d.how = "permute" -> [i \in 1 .. n |-> rev[n + 1 - i]]

Change(w, d, k) ==
  LET s == d.slot[1] IN
  CASE d.op = "flip" -> Flip(w, k, d.f)
    [] d.op = "hdr" -> Header(w, d.f, d.v)
    [] d.op = "sub" -> LET x == Plain(IF d.other = 1 THEN 2 ELSE 1, SrcKind(d.src.who, d.src.stage, d.src.slot), d.src.slot[1], d.src.slot[2])
                       IN IF d.fix = 1 THEN [w EXCEPT !.b = x.b]
                          ELSE IF x.msgno # w.msgno /\ {x.msgno, w.msgno} # {4, 5} THEN [x EXCEPT !.b = w.b]      \* contents of another shape
                          ELSE x
    [] d.op = "keys" -> (CASE d.how \in {"noise", "noise0"} -> [w EXCEPT !.b.nk = Junk]
                           [] d.how = "noisedup" -> [w EXCEPT !.b.nk = Nk(1, IF s = 1 THEN 2 ELSE 1)]
                           [] d.how = "sig" -> [w EXCEPT !.b.pk = <<"sk", 9, s>>])
    [] d.op = "commit" -> [w EXCEPT !.b.com = Committed(@, d.how, d.k)]
    [] d.op = "text" -> [w EXCEPT !.b.text = d.how]
    [] d.op = "first" -> [w EXCEPT !.b.n = IF d.how \in {"n", "both"} THEN d.v ELSE @, !.b.t = IF d.how \in {"t", "both"} THEN d.v ELSE @,
                                   !.b.dst = IF d.how = "dst" THEN "other" ELSE @]
    [] d.op = "share8" -> [w EXCEPT !.b = Reshare(@, d.how, s, d.slot[2])]
    [] d.op = "list" -> [w EXCEPT !.b = [count |-> d.count, list |-> Listed(d.list)]]
    [] d.op = "reveal" -> [w EXCEPT !.b.rev = Revealed(@, d, s)]
Signer(d) == IF d.op = "keys" /\ d.how = "sig" THEN <<"sk", 9, d.slot[1]>> ELSE Sk(1, d.sign)
Altered(w, d, k) == LET x == Change(w, d, k) IN IF d.sign < 0 THEN x ELSE Seal(x, Signer(d))

(* inputs: TP 4: [w, lt] by peer; 6, 8, 14: by sender and recipient; others  *)
(* by sender.  Peers: broadcasts and direct messages of the TP: a message,   *)
(* otherwise messages by sender                                              *)
ApplyTp(d, in, st) ==
  LET s == d.slot[1]  r == d.slot[2]  k == PL!KindAt(0, st) IN
  CASE st = "4" -> IF d.op = "flip" /\ d.f = "lt" THEN [in EXCEPT ![s].lt = Junk]
                   ELSE LET w == Altered(in[s].w, d, 2) IN
                        [in EXCEPT ![s] = [w |-> w, lt |-> IF d.op = "keys" /\ d.lt = 1 THEN <<Lt(s), w>> ELSE @.lt]]
    [] st \in {"6", "8", "14"} -> [in EXCEPT ![s][r] = Altered(@, d, k)]
    [] st = "18" /\ s \notin DOMAIN in -> in
    [] OTHER -> [in EXCEPT ![s] = Altered(@, d, k)]
ApplyPeer(d, in, st) ==
  LET s == d.slot[1] IN
  IF st \in {"5", "13", "17"}
  THEN IF s = 0 THEN Altered(in, d, BKind(st))
       ELSE LET x == [in EXCEPT !.b[s] = Altered(@, d, PL!KindAt(1, st))] IN IF d.outer = 1 THEN Seal(x, Sk(1, 0)) ELSE x
  ELSE IF st \in {"0", "2", "21"} THEN Altered(in, d, IF st = "0" THEN 0 ELSE PL!KindAt(1, st))
  ELSE [in EXCEPT ![s] = Altered(@, d, PL!KindAt(1, st))]
RECURSIVE ApplyAll(_, _, _, _)
ApplyAll(ds, who, st, in) ==
  IF ds = <<>> THEN in
  ELSE LET d == Head(ds)
           x == IF d.at = <<who, st>> THEN (IF who = 0 THEN ApplyTp(d, in, st) ELSE ApplyPeer(d, in, st)) ELSE in
       IN ApplyAll(Tail(ds), who, st, x)

(* ---------------------------------------------------------------- views for TpDkg *)
Add(w, more) == [x \in DOMAIN w \cup {"raw"} \cup DOMAIN more |-> IF x = "raw" THEN w ELSE IF x \in DOMAIN more THEN more[x] ELSE w[x]]
V(w) == Add(w, w.b)
Bare(w) == Add(w, <<>>)
(* peers that were told different complaints send messages of different kinds *)
Shaped(st, w) ==
  CASE st = "20" -> IF "digest" \in DOMAIN w.b THEN w ELSE [w EXCEPT !.b = [digest |-> Junk]]
    [] st = "18" -> IF "rev" \in DOMAIN w.b THEN w ELSE [w EXCEPT !.b = [rev |-> <<>>]]
ViewTp(st, in) ==
  CASE st = "1" -> <<>>
    [] st = "4" -> [j \in Peers |-> Add(in[j].w, [pk |-> in[j].w.b.pk, lt |-> in[j].lt])]
    [] st \in {"6", "8", "14"} -> [j \in Peers |-> [i \in Peers |-> Bare(in[j][i])]]
    [] st \in {"18", "20"} -> [j \in DOMAIN in |-> V(Shaped(st, in[j]))]
    [] OTHER -> [j \in DOMAIN in |-> V(in[j])]
ViewPeer(i, st, in) ==
  CASE st = "0" -> V(in)
    [] st = "2" -> Bare(in)
    [] st = "5" -> Add(in, [inner |-> [j \in Peers |-> Add(in.b[j], [pk |-> in.b[j].b.pk, genuine |-> in.b[j].b.nk = Nk(1, j)])]])
    [] st = "7" -> [j \in Peers |-> Add(in[j], [genuine |-> in[j].b.hs = <<"hs1", 1, j, i, Nk(1, i)>>])]
    [] st = "9" -> [j \in Peers |-> Add(in[j], [genuine |-> in[j].b.hs = <<"hs2", 1, j, i, TRUE>>])]
    [] st \in {"13", "17"} -> Add(in, [inner |-> [j \in Peers |-> V(in.b[j])]])
    [] st = "15" -> [j \in Peers |-> Add(in[j], [genuine |-> in[j].b.hs = <<"hs3", 1, j, i, TRUE>>,
                                               mac |-> MMac(Chan(1, j, i), in[j]), share |-> MOpened(Chan(1, j, i), in[j])])]
    [] st = "21" -> V(in)
    [] OTHER -> <<>>

(* ---------------------------------------------------------------- session *)
VARIABLES plan,     \* the deviations of this session
          pc,       \* calls made
          hist,     \* outcomes chosen where either is allowed
          tp, ps,   \* the machines
          nv,       \* channel keys as each peer was told
          inb, tin, \* what is under way to the peers and to the TP
          opened,   \* share keys disclosed by peers that follow the protocol
          report    \* of the TP's failing call: [must, may, why, stage]
vars == <<plan, pc, hist, tp, ps, nv, inb, tin, opened, report>>

(* which sessions: every STRIDE-th deviation of the families named, from SEED on *)
Stride == atoi(IOEnv.STRIDE)
Seed == atoi(IOEnv.SEED)
Single(S) == LET q == SetToSeq(S) IN {<<q[i]>> : i \in {k \in DOMAIN q : (k + Seed) % Stride = 0}}
Double(S) == LET q == SetToSeq(S) IN {<<q[p[1]], q[p[2]]>> : p \in {x \in (DOMAIN q) \X (DOMAIN q) : x[1] # x[2] /\ (31 * x[1] + 17 * x[2] + Seed) % Stride = 0}}
Cased(S)  == LET q == SetToSeq(S) IN {q[i] : i \in {k \in DOMAIN q : (k + Seed) % Stride = 0}}
Core2 == PL!Keys4 \cup PL!Commit12 \cup PL!Share14 \cup PL!Dig20 \cup {d \in PL!List16 : d.count <= 1} \cup {d \in PL!Equiv : d.op # "hdr"}
Chosen ==
  CASE IOEnv.PLANS = "none" -> {}
    [] IOEnv.PLANS = "deep" -> Single(PL!Deep)
    [] IOEnv.PLANS = "complaints" -> Cased(PL!Cases17)
    [] IOEnv.PLANS = "flips" -> Single(PL!FlipTp \cup PL!FlipPeer \cup PL!FlipInner)
    [] IOEnv.PLANS = "headers" -> Single(PL!HdrTp \cup PL!HdrPeer \cup PL!HdrRelay)
    [] IOEnv.PLANS = "foreign" -> Single(PL!SubTp \cup PL!SubPeer)
    [] IOEnv.PLANS = "accuse" -> Cased(PL!False2 \cup PL!False3)
    [] IOEnv.PLANS = "several" -> Cased(PL!Several)
    [] IOEnv.PLANS = "pairs" -> Double(Core2)
Dis(pl) == UNION {{d.dis[k] : k \in DOMAIN d.dis} : d \in {pl[i] : i \in DOMAIN pl}}

Gone(st) == [stage |-> "failed", at |-> st]
Zero == Plain(1, 0, 0, 0)
(* the parties in the order of their calls *)
Width == N + 1
Turn == pc % Width      \* 0: the TP

Init ==
  /\ plan \in Chosen \cup {<<>>}
  /\ pc = 0 /\ hist = <<>> /\ opened = {} /\ report = [must |-> {}, may |-> {}, why |-> {}, stage |-> "none"]
  /\ tp = P!TpInit(N, T, Eps, Now, Sid(1), Sk(1, 0), [i \in Peers |-> Lt(i)], Zero)
  /\ nv = [i \in Peers |-> <<>>]
  /\ ps = [i \in Peers |-> LET v == P!PeerStart(ViewPeer(i, "0", ApplyAll(plan, i, "0", Zero)), Now, Eps) IN IF v.ok = "no" THEN Gone("0") ELSE v.st]
  /\ inb = [i \in Peers |-> <<>>] /\ tin = <<>>

Bcast(k, in) == Msg(k, Sz(k), 0, 255, Sid(1), in, Sk(1, 0))
TpEmits(s, in) ==     \* the next inputs of the peers
  CASE s.stage = "1" -> [i \in Peers |-> Msg(1, Sz(1), 0, i, Sid(1), <<>>, Sk(1, 0))]
    [] s.stage = "4" -> [i \in Peers |-> Bcast(3, [j \in Peers |-> in[j].w])]
    [] s.stage \in {"6", "8", "14"} -> [i \in Peers |-> [j \in Peers |-> in[j][i]]]
    [] s.stage = "12" -> [i \in Peers |-> Bcast(7, in)]
    [] s.stage = "16" -> [i \in Peers |-> Bcast(10, in)]
    [] s.stage = "20" -> [i \in Peers |-> Msg(21, Sz(21), 0, 255, Sid(1), [text |-> "OK"], Sk(1, 0))]
    [] OTHER -> [i \in Peers |-> <<>>]

Ready == \A i \in Peers : i \in DOMAIN tin
TpTurn ==
  /\ Turn = 0
  /\ tp.stage \notin {"failed", "end"}
  /\ tp.stage = "1" \/ (tp.stage # "18" /\ Ready) \/ (tp.stage = "18" /\ P!Accused(tp) \subseteq DOMAIN tin)
  /\ LET in == ApplyAll(plan, 0, tp.stage, tin)
         v  == P!TpCall(tp, ViewTp(tp.stage, in), Now)
         em == TpEmits(tp, in)
         go == /\ tp' = IF tp.stage \in {"4", "12", "16"} THEN [v.st EXCEPT !.tr = Append(@, em[1])] ELSE v.st
               /\ inb' = em /\ UNCHANGED report
         stop == /\ tp' = Gone(tp.stage) /\ inb' = [i \in Peers |-> <<>>]
                 /\ report' = [must |-> v.must, may |-> v.may, why |-> v.why, stage |-> tp.stage]
     IN \/ /\ v.ok # "no" /\ go /\ hist' = IF v.ok = "any" THEN Append(hist, <<0, "ok">>) ELSE hist
        \/ /\ v.ok # "yes" /\ stop /\ hist' = IF v.ok = "any" THEN Append(hist, <<0, "no">>) ELSE hist
  /\ tin' = <<>>
  /\ pc' = pc + 1
  /\ UNCHANGED <<plan, ps, nv, opened>>

Hs1(i, s) == [j \in Peers |-> <<"hs1", 1, i, j, nv'[i][j]>>]
PeerEmits(i, s, nx, named) ==
  LET me == nx.idx
      size(k) == P!MsgSize(k, s.n, s.t)
      to(k, b) == [j \in Peers |-> Msg(k, size(k), me, j, Sid(1), b[j], Sk(1, i))]
      one(k, dst, b) == Msg(k, size(k), me, dst, Sid(1), b, Sk(1, i))
      mine == SetToSeq(P!Mine(s))
  IN CASE s.stage = "2" -> LET w == one(2, 255, [pk |-> Sk(1, i), nk |-> Nk(1, i)]) IN [w |-> w, lt |-> <<Lt(i), w>>]
       [] s.stage = "5" -> to(4, [j \in Peers |-> [hs |-> <<"hs1", 1, i, j, nv'[i][j]>>]])
       [] s.stage = "7" -> to(5, [j \in Peers |-> [hs |-> <<"hs2", 1, i, j, <<"in", j>> \notin nx.hsbad>>]])
       [] s.stage = "9" -> one(6, 255, [com |-> Poly(1, i)])
       [] s.stage = "13" -> to(8, [j \in Peers |-> Share8(Chan(1, i, j), <<j, EvalC(Poly(1, i), j)>>, <<"hs3", 1, i, j, <<"out", j>> \notin nx.hsbad>>)])
       [] s.stage = "15" -> LET l == SetToSeq(named) IN one(9, 255, [count |-> Len(l), list |-> Listed(l)])
       [] s.stage = "17a" -> Msg(11, P!RevealSize(Len(mine)), me, 0, Sid(1), [rev |-> [k \in 1 .. Len(mine) |-> [c |-> mine[k], key |-> Chan(1, i, mine[k])]]], Sk(1, i))
       [] s.stage = "19" -> one(20, 0, [digest |-> s.tr])
       [] s.stage = "21" -> one(22, 0, [text |-> "OK"])

Over(st) == st \in {"failed", "end", "doomed"}
PeerTurn ==
  /\ Turn # 0
  /\ LET i == Turn  s == ps[i] IN
     IF Over(s.stage) \/ (s.stage \notin {"17a", "19"} /\ inb[i] = <<>>)
     THEN /\ pc' = IF s.stage \in {"17a", "19"} THEN pc ELSE pc + 1
          /\ UNCHANGED <<plan, hist, tp, ps, nv, inb, tin, opened, report>>
     ELSE
       LET in == ApplyAll(plan, i, s.stage, inb[i])
           fits == P!PeerInSize(s) = P!PeerInSize([s EXCEPT !.n = N, !.t = T])      \* a peer told other parameters expects other lengths
           v  == IF fits THEN P!PeerCall(s, ViewPeer(i, s.stage, in), Now) ELSE P!No({"size"})
           silent == s.stage = "17"     \* followed at once by 17a or 19
           choices == IF s.stage = "15" /\ v.ok # "no" THEN {P!MustComplain(v.st), P!MayComplain(v.st)} ELSE {{}}
       IN /\ nv' = IF s.stage = "5" THEN [nv EXCEPT ![i] = [j \in Peers |-> in.b[j].b.nk]] ELSE nv
          /\ \/ /\ v.ok # "no"
                /\ ps' = [ps EXCEPT ![i] = v.st]
                /\ hist' = IF v.ok = "any" THEN Append(hist, <<i, "ok">>) ELSE hist
                /\ \E named \in choices :
                     tin' = IF silent \/ (s.stage = "17a" /\ P!Mine(s) = {}) THEN tin
                            ELSE [x \in DOMAIN tin \cup {i} |-> IF x = i THEN PeerEmits(i, s, v.st, named) ELSE tin[x]]
                /\ opened' = IF s.stage = "17a" THEN opened \cup {Chan(1, i, c) : c \in P!Mine(s)} ELSE opened
             \/ /\ v.ok # "yes"
                /\ ps' = [ps EXCEPT ![i] = Gone(s.stage)]
                /\ hist' = IF v.ok = "any" THEN Append(hist, <<i, "no">>) ELSE hist
                /\ UNCHANGED <<tin, opened>>
          /\ inb' = [inb EXCEPT ![i] = <<>>]
          /\ pc' = IF silent /\ ps'[i].stage # "failed" THEN pc ELSE pc + 1
          /\ UNCHANGED <<plan, tp, report>>

Next == TpTurn \/ PeerTurn
Spec == Init /\ [][Next]_vars
View == <<plan, pc, hist, tp.stage, [i \in Peers |-> ps[i].stage], IF DOMAIN tin = {} THEN {} ELSE {<<i, tin[i]>> : i \in DOMAIN tin}>>

(* ---------------------------------------------------------------- properties *)
Honest == Peers \ Dis(plan)
TpHonest == 0 \notin Dis(plan)
Ended(i) == ps[i].stage = "end"
Value(i) == LET v(d) == ps[i].xs[d][2] f[d \in 0 .. N] == IF d = 0 THEN 0 ELSE (f[d - 1] + v(d)) % Q IN f[N]
OnSum(i, coms) == LET f[d \in 0 .. N] == IF d = 0 THEN 0 ELSE (f[d - 1] + EvalC(coms[d], ps[i].idx)) % Q IN f[N] = Value(i)

(* C11: whoever follows the protocol and ends holds its point of the polynomial all committed to *)
Consistent ==
  LET e == {i \in Honest : Ended(i)} IN
  tp.stage = "end" =>
    /\ \A i, j \in e : ps[i].com = ps[j].com
    /\ \A i, j \in e : ps[i].idx = ps[j].idx => i = j
    /\ \A i \in e : ps[i].com = tp.com /\ OnSum(i, tp.com)
(* C12: an alteration in transit stops its receiver *)
Order == <<"0", "1", "2", "4", "5", "6", "7", "8", "9", "12", "13", "14", "15", "16", "17", "17a", "18", "19", "20", "21", "22", "doomed", "end">>
Nr(st) == CHOOSE k \in DOMAIN Order : Order[k] = st
Passed(d) == LET s == IF d.at[1] = 0 THEN tp ELSE ps[d.at[1]] IN Nr(IF s.stage = "failed" THEN s.at ELSE s.stage) > Nr(d.at[2])
Detected == \A k \in DOMAIN plan : (plan[k].op = "flip" /\ plan[k].sign < 0 /\ plan[k].at[2] # "18") => ~Passed(plan[k])
(* C13: so does a message of another session, sender, recipient, kind or time, whoever signed it *)
Genuine(d) == Plain(1, SrcKind(d.at[1], d.at[2], d.slot), d.slot[1], d.slot[2])
Foreign(d) ==
  \/ d.op = "hdr" /\ d.f = "sid" /\ d.at[2] \notin {"0", "18"}
  \/ d.op = "hdr" /\ d.f \in {"msgno", "len", "from", "to"} /\ d.at[2] \notin {"0", "2", "18"} /\ Genuine(d)[d.f] # d.v
  \/ d.op = "hdr" /\ d.f = "dts" /\ (d.v < (IF d.slot[1] # 0 /\ d.at[2] \in {"4", "5"} THEN 0 - Eps ELSE 0) \/ d.v > Eps) /\ d.at[2] \notin {"0", "18"}
  \/ d.op = "sub" /\ d.fix = 0 /\ d.other = 1
  \/ d.op = "sub" /\ d.fix = 0 /\ d.slot # d.src.slot /\ d.at[2] \notin {"2", "21"}
  \/ d.op = "keys" /\ d.at[2] = "4" /\ d.lt = 0                     \* keys not vouched for by the long-term key
  \/ d.op = "text"                                                  \* an announcement or acknowledgement that says something else
Rejected == \A k \in DOMAIN plan : Foreign(plan[k]) => ~Passed(plan[k])
(* C14, C17, C19: nobody ends after a failure of the TP or a complaint *)
Complained == \E i \in Peers : ps[i].stage \in {"17a", "doomed"}
NoSuccess ==
  /\ (report.stage \notin {"none", "22"}) => \A i \in Peers : ~Ended(i)
  /\ (TpHonest /\ Complained) => tp.stage # "end" /\ \A i \in Peers : ~Ended(i)
(* C15 *)
Strange == \E k \in DOMAIN plan : plan[k].op = "commit" /\ plan[k].how = "identity"      \* either verdict is acceptable, if peers and TP agree
Fair == (TpHonest /\ report.stage # "none") => report.must \subseteq Dis(plan) /\ (Strange \/ report.may \subseteq Dis(plan))
(* C16: some peer is reported unless the complaints are too many *)
Attributed == (TpHonest /\ report.stage # "none" /\ "many" \notin report.why) => report.must # {} \/ (Strange /\ report.may # {})
Sane == report.must \subseteq report.may
(* C17: every complaint is decided *)
Decided == (TpHonest /\ report.stage = "18") => report.must # {} \/ (Strange /\ report.may # {})
(* C18: the key between two honest peers stays with them *)
Secret == \A a, c \in Honest : Chan(1, a, c) \notin opened
(* C19 *)
Agreed ==
  LET differ == \E i \in Peers : ps[i].stage \notin {"failed", "2"} /\ Len(ps[i].tr) > 0 /\
                    ~(Len(ps[i].tr) <= Len(tp.tr) /\ SubSeq(tp.tr, 1, Len(ps[i].tr)) = ps[i].tr)
  IN tp.stage # "failed" => (differ => tp.stage # "end" /\ \A i \in Peers : ~Ended(i))
(* C28 *)
Completes == (plan = <<>> /\ ~ENABLED Next) => tp.stage = "end" /\ \A i \in Peers : Ended(i)
=============================================================================
