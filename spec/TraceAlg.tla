------------------------------ MODULE TraceAlg -----------------------------
(* Conformance of the OPRF, threshold OPRF, key generation and               *)
(* multiplication calls with the specification, over ristretto255.           *)
(* Shares and parts are [i |-> index, v |-> hex].                            *)
EXTENDS TraceBase, Oprf

T == INSTANCE Threshold WITH Add <- SAdd, Sub <- SSub, Mul <- SMul, Inv <- SInv, Num <- SInt,
                             GAdd <- PAdd, GMul <- PMul, GValid <- PValid, GBase <- PBase, G0 <- P0, Canon <- SCanon

Seq2(s) == TLCEval([k \in 1 .. Len(s) |-> <<s[k].i, s[k].v>>])

AStart(run) == [sess |-> <<>>, key |-> <<>>]

(* result rc, value v of the implementation against spec result s *)
Agree(rc, v, s) == IF s.ok THEN rc = 0 /\ v = s.v ELSE rc # 0
Same(st) == [st |-> st]
R(st, b) == [st |-> st, bad |-> b]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

AStep(run, st, e) ==
  CASE e.op = "expand" ->
         R(st, Viol("C02", IF e.rc = 0 THEN e.out = ExpandXmd(e.msg, e.dst, e.len) ELSE BLen(e.dst) = 255, "expand_message_xmd differs from RFC 9380")
               \cup Viol("C02", e.tail, "bytes beyond the requested length written"))
    [] e.op = "h2g" -> R(st, Viol("C02", e.rc = 0 /\ e.out = HashToGroup(e.msg), "hash to group differs from RFC 9497"))

    \* ---- OPRF: sessions of a client, keyed by s
    [] e.op = "keygen" -> R([st EXCEPT !.key = Put(@, e.kid, e.k)], Viol("C01", SCanon(e.k) /\ e.k # S0, "unusable key"))
    [] e.op = "blind" ->
         R([st EXCEPT !.sess = Put(@, e.s, [x |-> e.x, r |-> e.r, a |-> e.alpha])],
           Viol("C01", e.rc = 0 /\ SCanon(e.r) /\ e.r # S0 /\ e.alpha = Blind(e.x, e.r).v, "blinded element is not H(x)^r"))
    [] e.op = "eval" ->
         R(st, Viol(IF e.honest THEN "C01" ELSE "C03", Agree(e.rc, e.out, Evaluate(e.k, e.in)), "evaluation"))
    [] e.op = "unblind" ->
         R(st, Viol(IF e.honest THEN "C01" ELSE "C03", Agree(e.rc, e.out, Unblind(e.r, e.in)), "unblinding"))
    [] e.op = "final" ->
         R(st, Viol("C01", e.rc = 0 /\ e.out = Finalize(e.x, e.n), "finalize differs from RFC 9497"))
    [] e.op = "output" ->   \* the client's result at the end of an honest exchange under key kid
         R(st, Viol("C01", e.out = F(st.key[e.kid], st.sess[e.s].x), "output is not F(k,x)"))

    \* ---- sharing
    [] e.op = "shares" ->
         LET s == Seq2(e.shares) IN
         R(st, Viol("C04", /\ \A k \in 1 .. Len(s) : s[k][1] = k /\ SCanon(s[k][2])
                           /\ Len(s) = e.n
                           /\ T!IsSharing(s, e.t, SRed(e.secret)), "not a sharing of the secret"))
    [] e.op = "recon" ->
         LET s == Seq2(e.shares) IN
         R(st, Viol("C04", e.out = SRed(e.secret) /\ e.out = T!Reconstruct(s), "reconstruction"))
    [] e.op = "coeff" -> R(st, Viol("C04", e.out = T!Lagrange(e.i, e.peers), "interpolation coefficient"))

    \* ---- threshold evaluation
    [] e.op = "tmult" ->
         LET x == T!ThresholdMult(Seq2(e.parts)) IN
         R(st, IF e.honest THEN Viol("C06", e.rc = 0 /\ x.ok /\ e.out = x.v /\ e.out = PMul(e.key, e.alpha), "client-side interpolation")
               ELSE Viol("C03", Agree(e.rc, e.out, x), "client-side interpolation of malformed parts"))
    [] e.op = "toomany" -> R(st, Viol("C06", e.rc # 0, "more parts than indexes"))
    [] e.op = "teval" ->
         LET x == T!EvalPart(<<e.share.i, e.share.v>>, e.alpha, e.idx) IN
         R(st, IF e.honest THEN Viol("C06", Agree(e.rc, e.out.v, x) /\ (e.rc = 0 => e.out.i = e.share.i), "shareholder-side interpolation")
               ELSE Viol("C03", Agree(e.rc, e.out.v, x), "evaluation of a malformed element"))
    [] e.op = "tcomb" ->
         LET x == T!Combine(Seq2(e.parts)) IN
         R(st, IF e.honest THEN Viol("C06", e.rc = 0 /\ e.out = PMul(e.key, e.alpha), "combination of partial evaluations")
               ELSE Viol("C03", Agree(e.rc, e.out, x), "combination of malformed parts"))
    [] e.op = "tdh" ->
         LET g  == HashToGroup(Blake2b(BCat(BCat(I2OSP(BLen(e.ssid), 2), e.ssid), e.alpha), 64))
             b  == Evaluate(e.k.v, e.alpha)
             h  == Evaluate(e.z.v, g)
             x  == IF b.ok /\ h.ok THEN Ok(PAdd(b.v, h.v)) ELSE Fail
         IN R(st, IF e.honest THEN Viol("C07", Agree(e.rc, e.out.v, x) /\ e.out.i = e.k.i, "3hashTDH response")
                  ELSE Viol("C03", Agree(e.rc, e.out.v, x), "3hashTDH on a malformed element"))
    [] e.op = "tdhcomb" ->
         R(st, Viol("C07", IF e.same THEN e.rc = 0 /\ e.out = PMul(e.key, e.alpha)
                           ELSE ~(e.rc = 0 /\ e.out = PMul(e.key, e.alpha)), "combination of 3hashTDH responses"))

    \* ---- key generation
    [] e.op = "deal" ->
         LET s == Seq2(e.shares) IN
         R(st, Viol("C08", /\ e.rc = 0
                           /\ \A k \in 1 .. e.n : s[k][1] = k /\ T!ShareOk(e.com, k, s[k][2])
                           /\ Len(e.com) = e.t /\ T!DegreeBelow(s, e.t), "dealer output inconsistent"))
    [] e.op = "verify" ->
         LET must == T!MustReport(e.self, e.com, e.vals)
             may  == T!MayReport(e.self, e.com, e.vals)
             got  == {e.fails[k] : k \in 1 .. Len(e.fails)}
         IN R(st, Viol(IF e.honest THEN "C08" ELSE "C09",
                       must \subseteq got /\ got \subseteq may /\ (e.rc = 0 <=> got = {}) /\ Len(e.fails) = Cardinality(got),
                       "set of reported dealers"))
    [] e.op = "accepted" -> R(st, Viol("C08", e.rc = 0 /\ Len(e.fails) = 0, "honest dealers reported"))
    [] e.op = "verify1" /\ e.honest ->
         R(st, Viol("C08", e.rc = 0 /\ T!ShareOk(e.com, e.self, e.val), "dealer output inconsistent"))
    [] e.op = "verify1" ->
         R(st, Viol("C09", (e.rc = 0 <=> (e.i = e.self \/ T!ShareOk(e.com, e.self, e.val))) \/ (T!Degenerate(e.com) /\ e.rc # 0),
                    "verdict on one dealer"))
    [] e.op = "finish" ->
         LET v(k) == e.vals[k] IN
         R(st, Viol("C08", e.out.i = e.self /\ e.out.v = T!Sum(v, 1, Len(e.vals)), "final share"))
    [] e.op = "joint" ->
         LET s == Seq2(e.shares)
             c(k) == e.com0[k]
             x == e.secret
         IN R(st, Viol("C08", /\ T!IsSharing(s, e.t, x) /\ PBase(x) = T!GSum(c, 1, Len(e.com0))
                              /\ \A q \in 1 .. Len(e.recon) : e.recon[q] = x, "joint sharing"))

    \* ---- multiplication
    [] e.op = "vdm" -> R(st, Viol("C10", T!IsVdmInverse(e.idx, e.m), "Vandermonde inverse"))
    [] e.op = "mulstart" ->
         LET good == e.a.i = e.b.i /\ e.t >= 1 /\ e.n >= e.t IN
         R(st, Viol("C10", IF good THEN e.rc = 0 /\ T!IsSharing(Seq2(e.shares), e.t, SMul(e.a.v, e.b.v)) /\ Len(e.shares) = e.n
                           ELSE e.rc # 0, "re-sharing of the product"))
    [] e.op = "product" ->
         R(st, Viol("C10", T!IsSharing(Seq2(e.shares), e.t, SMul(e.a, e.b)), "product sharing"))
=============================================================================
