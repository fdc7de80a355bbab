------------------------------- MODULE PyApi -------------------------------
(* The calls of the Python binding: for which arguments a call is defined    *)
(* and what it then returns.  Every other call must raise.                   *)
(*                                                                           *)
(* Values: [t |-> "bytes", v |-> hex], [t |-> "str", v |-> hex of its utf8], *)
(* [t |-> "int", v |-> number, h |-> its 8 bytes in hex, "" if it has more], *)
(* [t |-> "list", v |-> sequence of values], [t |-> "none"] and              *)
(* [t |-> "odd", as |-> value]: a value of a type that is not announced, but *)
(* that has an obvious meaning (bytearray, memoryview, bool, float).         *)
(* A call with odd values may raise, or do the obvious.                      *)
EXTENDS TraceAlg, Channel

Cut(x, off, n) == IF off + n > BLen(x) THEN "" ELSE BSub(x, off, off + n)
Byte0(x) == IF BLen(x) = 0 THEN -1 ELSE BByte(x, 0)
Base25519 == BCat("09", BZero(31))

Plain(a) == IF a.t = "odd" THEN a.as ELSE a
Plainly(a) == LET b == Plain(a) IN IF b.t = "list" THEN [b EXCEPT !.v = [k \in DOMAIN b.v |-> Plain(b.v[k])]] ELSE b
Odd(a) == a.t = "odd" \/ (a.t = "list" /\ \E k \in DOMAIN a.v : a.v[k].t = "odd")

B(a, n)      == a.t = "bytes" /\ BLen(a.v) = n
BUpTo(a, n)  == a.t = "bytes" /\ BLen(a.v) <= n
I(a, lo, hi) == a.t = "int" /\ a.v >= lo /\ a.v <= hi
U64(a)       == a.t = "int" /\ a.h # ""
L(a, lo, hi) == a.t = "list" /\ Len(a.v) >= lo /\ Len(a.v) <= hi
LB(a, lo, hi, n) == L(a, lo, hi) /\ \A k \in DOMAIN a.v : B(a.v[k], n)
LI(a, lo, hi)    == L(a, lo, hi) /\ \A k \in DOMAIN a.v : I(a.v[k], 1, 255)

Distinct(s) == Cardinality({s[k] : k \in DOMAIN s}) = Len(s)
(* index and value of a 33-byte share or part *)
Idx(x) == BByte(x.v, 0)
Val(x) == Cut(x.v, 1, 32)
Pairs(a) == TLCEval([k \in DOMAIN a.v |-> <<Idx(a.v[k]), Val(a.v[k])>>])
Nums(a)  == TLCEval([k \in DOMAIN a.v |-> a.v[k].v])
Usable(a) == LET s == Pairs(a) IN Distinct([k \in DOMAIN s |-> s[k][1]]) /\ \A k \in DOMAIN s : s[k][1] # 0

Group(n, t) == I(n, 2, 255) /\ I(t, 2, 255) /\ t.v <= n.v
Name(a) == a.t \in {"bytes", "str"} /\ BLen(a.v) >= 1 /\ BLen(a.v) <= 1024

(* "in": defined, "out": must raise, "free": left open (among these are      *)
(* bytes in place of a list of small numbers)                                *)
If(c) == IF c THEN "in" ELSE "out"
If2(c, d) == IF ~c THEN "out" ELSE IF d THEN "in" ELSE "free"
Dom(st, f, a) ==
  CASE f = "keygen" -> "in"
    [] f = "blind" -> If(BUpTo(a[1], 255))
    [] f = "evaluate" -> If(B(a[1], 32) /\ B(a[2], 32))
    [] f = "unblind" -> If(B(a[1], 32) /\ B(a[2], 32))
    [] f = "finalize" -> If(BUpTo(a[1], 65535) /\ B(a[2], 32))
    [] f = "unblind_finalize" -> If(B(a[1], 32) /\ B(a[2], 32) /\ BUpTo(a[3], 65535))
    [] f = "coeff" -> IF L(a[2], 256, 10000000) \/ a[2].t = "bytes" THEN "free" ELSE If2(I(a[1], 1, 255) /\ LI(a[2], 2, 255), Distinct(Nums(a[2])) /\ \E k \in DOMAIN a[2].v : a[2].v[k].v = a[1].v)
    [] f = "create_shares" -> If(B(a[1], 32) /\ Group(a[2], a[3]))
    [] f \in {"thresholdmult", "threshold_combine"} -> If2(LB(a[1], 2, 255, 33), Usable(a[1]))
    [] f = "threshold_evaluate" ->
         IF (a[4].t = "list" /\ Len(a[4].v) = 0) \/ a[4].t = "bytes" THEN "free"
         ELSE If2(B(a[1], 33) /\ B(a[2], 32) /\ I(a[3], 1, 255) /\ LI(a[4], 1, 255),
                  Distinct(Nums(a[4])) /\ (\E k \in DOMAIN a[4].v : a[4].v[k].v = a[3].v) /\ Idx(a[1]) = a[3].v)
    [] f = "3hashtdh" -> If(B(a[1], 33) /\ B(a[2], 33) /\ B(a[3], 32) /\ BUpTo(a[4], 65535))
    [] f = "dkg_start" -> If(Group(a[1], a[2]))
    [] f = "dkg_verify_commitments" -> If(/\ Group(a[1], a[2]) /\ I(a[3], 1, a[1].v)
                                          /\ B(a[4], a[1].v * a[2].v * 32) /\ LB(a[5], a[1].v, a[1].v, 33))
    [] f = "dkg_finish" -> If(I(a[1], 1, 255) /\ LB(a[2], a[1].v, a[1].v, 33) /\ I(a[3], 1, a[1].v))
    [] f = "dkg_reconstruct" -> IF L(a[1], 256, 10000000) \/ L(a[1], 0, 0) THEN "free" ELSE If2(LB(a[1], 1, 255, 33), Usable(a[1]))
    [] f = "start_tp" -> If(I(a[1], 3, 128) /\ I(a[2], 2, a[1].v - 1) /\ U64(a[3]) /\ Name(a[4]) /\ LB(a[5], a[1].v, a[1].v, 32))
    [] f = "peer_start" -> If2(U64(a[1]) /\ B(a[2], 64) /\ B(a[3], 177), a[3].v \in st.msg0 /\ a[1].v < 1000000)
    [] f = "pubkey" -> If(B(a[1], 32))

(* out = [ok, v]: the call returned v, or raised *)
Is(out, s) == IF s.ok THEN out.ok /\ out.v = s.v ELSE ~out.ok
Commitments(a) ==    \* of dkg_verify_commitments, by dealer
  [i \in 1 .. a[1].v |-> [k \in 1 .. a[2].v |-> Cut(a[4].v, ((i - 1) * a[2].v + k - 1) * 32, 32)]]
Prefix == Ascii("TP DKG for protocol ")
Good(st, f, a, out) ==
  CASE f = "keygen" -> out.ok /\ BLen(out.v) = 32 /\ SCanon(out.v) /\ out.v # S0
    [] f = "blind" -> out.ok /\ SCanon(out.v[1]) /\ out.v[1] # S0 /\ out.v[2] = Blind(a[1].v, out.v[1]).v
    [] f = "evaluate" -> Is(out, Evaluate(a[1].v, a[2].v))
    [] f = "unblind" -> Is(out, Unblind(a[1].v, a[2].v))
    [] f = "finalize" -> out.ok /\ out.v = Finalize(a[1].v, a[2].v)
    [] f = "unblind_finalize" -> LET n == Unblind(a[1].v, a[2].v) IN IF n.ok THEN out.ok /\ out.v = Finalize(a[3].v, n.v) ELSE ~out.ok
    [] f = "coeff" -> out.ok /\ out.v = T!Lagrange(a[1].v, Nums(a[2]))
    [] f = "create_shares" ->
         /\ out.ok /\ Len(out.v) = a[2].v
         /\ LET s == TLCEval([k \in DOMAIN out.v |-> <<Byte0(out.v[k]), Cut(out.v[k], 1, 32)>>]) IN
            /\ \A k \in DOMAIN s : BLen(out.v[k]) = 33 /\ s[k][1] = k /\ SCanon(s[k][2])
            /\ T!IsSharing(s, a[3].v, SRed(a[1].v))
    [] f = "thresholdmult" -> Is(out, T!ThresholdMult(Pairs(a[1])))
    [] f = "threshold_combine" -> Is(out, T!Combine(Pairs(a[1])))
    [] f = "threshold_evaluate" -> LET x == T!EvalPart(<<Idx(a[1]), Val(a[1])>>, a[2].v, Nums(a[4])) IN
                                   IF x.ok THEN out.ok /\ out.v = BCat(I2OSP(a[3].v, 1), x.v) ELSE ~out.ok
    [] f = "3hashtdh" ->
         LET g == HashToGroup(Blake2b(BCat(BCat(I2OSP(BLen(a[4].v), 2), a[4].v), a[3].v), 64))
             b == Evaluate(Val(a[1]), a[3].v)
             h == Evaluate(Val(a[2]), g)
         IN IF b.ok /\ h.ok THEN out.ok /\ out.v = BCat(Cut(a[1].v, 0, 1), PAdd(b.v, h.v)) ELSE ~out.ok
    [] f = "dkg_start" ->
         /\ out.ok /\ BLen(out.v.com) = 32 * a[2].v /\ Len(out.v.shares) = a[1].v
         /\ LET c == TLCEval([k \in 1 .. a[2].v |-> Cut(out.v.com, 32 * (k - 1), 32)])
                s == TLCEval([k \in DOMAIN out.v.shares |-> <<Byte0(out.v.shares[k]), Cut(out.v.shares[k], 1, 32)>>])
            IN T!DegreeBelow(s, a[2].v) /\ \A k \in DOMAIN s : s[k][1] = k /\ (k < 6 => T!ShareOk(c, k, s[k][2]))
    [] f = "dkg_verify_commitments" ->
         LET c == TLCEval(Commitments(a))
             v == TLCEval([k \in DOMAIN a[5].v |-> Val(a[5].v[k])])
             must == T!MustReport(a[3].v, c, v)
             may == T!MayReport(a[3].v, c, v)
             got == {out.v[k] : k \in DOMAIN out.v}
         IN IF out.ok THEN must \subseteq got /\ got \subseteq may ELSE may # {}
    [] f = "dkg_finish" -> LET v(k) == Val(a[2].v[k]) IN out.ok /\ out.v = BCat(I2OSP(a[3].v, 1), T!Sum(v, 1, a[1].v))
    [] f = "dkg_reconstruct" -> out.ok /\ out.v = T!Reconstruct(Pairs(a[1]))
    [] f = "start_tp" ->
         /\ out.ok /\ BLen(out.v.msg) = 177
         /\ out.v.eps = a[3].h /\ out.v.n = a[1].v /\ out.v.t = a[2].v
         /\ Cut(out.v.msg, 79, 32) = out.v.sid
         /\ Cut(out.v.msg, 111, 32) = out.v.pk
         /\ Cut(out.v.msg, 143, 32) = Blake2b(BCat(BCat(I2OSP(BLen(a[4].v) + 20, 2), Prefix), a[4].v), 32)
         /\ Cut(out.v.msg, 175, 2) = BCat(I2OSP(a[1].v, 1), I2OSP(a[2].v, 1))
    [] f = "peer_start" ->
         /\ out.ok /\ out.v.eps = a[1].h /\ out.v.sk = a[2].v /\ out.v.sid = Cut(a[3].v, 79, 32)
         /\ Cut(a[3].v, 175, 2) = BCat(I2OSP(out.v.n, 1), I2OSP(out.v.t, 1))
    [] f = "pubkey" -> out.ok /\ out.v = X25519(a[1].v, Base25519)

(* Verdict on the call f of arguments a *)
Right(st, f, a, out) ==
  LET b == TLCEval([k \in DOMAIN a |-> Plainly(a[k])])
      d == Dom(st, f, b)
  IN CASE d = "in" -> ((\E k \in DOMAIN a : Odd(a[k])) /\ ~out.ok) \/ Good(st, f, b, out)
       [] d = "out" -> ~out.ok
       [] OTHER -> TRUE
=============================================================================
