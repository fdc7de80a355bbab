-------------------------- MODULE NoiseBytesTrace --------------------------
(* Conformance of the library's channel messages, byte by byte, with         *)
(* NoiseBytes.  One run: the library in one role, a reference party in the   *)
(* other.  run.role: role of the library; pro: prologue; rs: the responder's *)
(* static key; lp, ls: the library's static pair; fe, fep: the reference's   *)
(* ephemeral pair; keys: all static pairs; reg: keys registered.             *)
EXTENDS TraceBase, NoiseBytes

BStart(run) == [y |-> Begin(run.pro, run.rs), el |-> "", ef |-> "", up |-> FALSE, dead |-> FALSE, ks |-> "", kr |-> "", ns |-> 0, nr |-> 0]

NoTop(p) == IF BByte(p, 31) >= 128 THEN BXor(p, BCat(BZero(31), "80")) ELSE p
LibI(run) == run.role = "I"
PrivOf(run, pub) == LET s == {i \in DOMAIN run.keys : run.keys[i].pub = pub} IN IF s = {} THEN "" ELSE run.keys[CHOOSE i \in s : TRUE].priv
Registered(run, pub) == \E i \in DOMAIN run.reg : run.reg[i] = pub
ES(run, e) == IF LibI(run) THEN X25519(PrivOf(run, run.rs), e) ELSE X25519(run.lp, e)
EE(run, el, ef) == IF NoTop(ef) = run.fep THEN X25519(run.fe, el) ELSE X25519(run.lp, ef)   \* only whether it is zero matters then

Up(run, y) == LET k == Split(y) IN IF LibI(run) THEN k ELSE <<k[2], k[1]>>      \* <<send, receive>> of the library

(* messages of the library *)
Handshake(run, st, e) ==     \* <<state, expected bytes>>
  IF e.turn = 1 THEN
    LET el == BSub(e.raw, 0, 32) c == Enc(MixKey(MixHash(st.y, el), ES(run, el)), e.pt) IN <<[st EXCEPT !.y = c[1], !.el = el], BCat(el, c[2])>>
  ELSE IF e.turn = 2 THEN
    LET el == BSub(e.raw, 0, 32) c == Enc(MixKey(MixHash(st.y, el), EE(run, el, st.ef)), e.pt) IN <<[st EXCEPT !.y = c[1], !.el = el], BCat(el, c[2])>>
  ELSE
    LET s == Enc(st.y, run.ls) c == Enc(MixKey(s[1], X25519(run.fe, run.ls)), e.pt) k == Up(run, c[1]) IN
    <<[st EXCEPT !.y = c[1], !.up = TRUE, !.ks = k[1], !.kr = k[2]], BCat(s[2], c[2])>>
Out(run, st, e) ==
  IF st.dead THEN [st |-> st, bad |-> Viol("C30", ~e.ok, "written after failure")]
  ELSE IF ~e.ok THEN [st |-> st, bad |-> {<<"C30", "write refused">>}]
  ELSE LET min == IF st.up THEN 16 ELSE <<48, 48, 64>>[e.turn] IN
       IF BLen(e.raw) # min + BLen(e.pt) THEN [st |-> st, bad |-> {<<"C30", "length of the message">>}]
       ELSE LET r == IF st.up THEN <<[st EXCEPT !.ns = @ + 1], Seal(st.ks, st.ns, "", e.pt)>> ELSE Handshake(run, st, e) IN
            [st |-> r[1], bad |-> Viol("C30", r[2] = e.raw, "bytes of the message") \cup Viol("C30", e.nlen = BLen(e.raw), "announced length")]

(* messages of the reference: <<state, payload or "bad">> *)
Read(run, st, e) ==
  LET r == e.raw n == BLen(r) IN
  IF st.up THEN
    LET p == IF n < 16 THEN "bad" ELSE Unseal(st.kr, st.nr, "", r) IN <<IF p = "bad" THEN st ELSE [st EXCEPT !.nr = @ + 1], p>>
  ELSE IF n < (IF e.turn = 3 THEN 64 ELSE 48) THEN <<st, "bad">>
  ELSE IF e.turn = 1 THEN
    LET ef == BSub(r, 0, 32) d == Dec(MixKey(MixHash(st.y, ef), ES(run, ef)), BSub(r, 32, n)) IN <<[st EXCEPT !.y = d[1], !.ef = ef], d[2]>>
  ELSE IF e.turn = 2 THEN
    LET ef == BSub(r, 0, 32) d == Dec(MixKey(MixHash(st.y, ef), EE(run, st.el, ef)), BSub(r, 32, n)) IN <<[st EXCEPT !.y = d[1], !.ef = ef], d[2]>>
  ELSE
    LET s == Dec(st.y, BSub(r, 0, 48)) IN
    IF s[2] = "bad" \/ ~Registered(run, s[2]) THEN <<st, "bad">>
    ELSE LET d == Dec(MixKey(s[1], X25519(PrivOf(run, s[2]), st.el)), BSub(r, 48, n)) IN
         IF d[2] = "bad" THEN <<st, "bad">>
         ELSE LET k == Up(run, d[1]) IN <<[st EXCEPT !.y = d[1], !.up = TRUE, !.ks = k[1], !.kr = k[2]], d[2]>>
In(run, st, e) ==
  IF st.dead THEN [st |-> st, bad |-> Viol("C30", ~e.ok, "read after failure")]
  ELSE LET r == Read(run, st, e) IN
       IF r[2] = "bad" THEN [st |-> IF st.up THEN st ELSE [st EXCEPT !.dead = TRUE], bad |-> Viol("C30", ~e.ok, "message accepted that does not follow the pattern")]
       ELSE [st |-> r[1], bad |-> IF e.ok THEN Viol("C30", e.got = r[2], "payload") ELSE {<<"C30", "message refused that follows the pattern">>}]

BStep(run, st, e) ==
  CASE e.op = "out" -> Out(run, st, e)
    [] e.op = "in"  -> In(run, st, e)
    [] e.op = "end" -> [st |-> st, bad |-> IF ~st.up THEN {} ELSE Viol("C30", e.hash = st.y.h, "session hash")
                                                              \cup Viol("C30", LibI(run) \/ e.peer = e.claimed, "identity")]
=============================================================================
