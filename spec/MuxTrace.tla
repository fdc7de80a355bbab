------------------------------ MODULE MuxTrace -----------------------------
(* Conformance of the multiplexer.  State: all that may have been collected. *)
EXTENDS TraceBase, Prims

FailMarker == "00046661696c"
M == INSTANCE Mux WITH Size    <- LAMBDA s : BLen(s),
                       Part    <- LAMBDA s, i, n : BSub(s, i, i + n),
                       Marker  <- LAMBDA m : m = FailMarker,
                       Refused <- LAMBDA m : BSub(m, 0, 1) = "78"

MStart(run) == [cs |-> {[pos |-> [p \in 1 .. run.peers |-> 0], dead |-> {}]}, out |-> [p \in 1 .. run.peers |-> ""]]
V(cond, reason) == Viol("C27", cond, reason)
Gathered(st, e) ==
  LET after == TLCEval(UNION {CASE e.ret = "list"  -> M!Returns(e.env, c, e.len, e.proc, e.n, e.res)
                                [] e.ret = "raise" -> M!Raises(e.env, c, e.len, e.proc, e.n)
                                [] OTHER           -> IF M!MustEnd(e.env, c, e.len, e.proc, e.n) THEN {} ELSE {c}
                              : c \in st.cs})
  IN [st  |-> [st EXCEPT !.cs = IF after = {} THEN @ ELSE after],
      bad |-> V(after # {}, "gather: " \o e.ret)]
ReadOne(st, e) ==
  LET after == TLCEval(UNION {IF e.ret = "bytes" THEN M!Reads(e.env, c, e.len, e.p, e.res)
                              ELSE IF e.p \in c.dead THEN {c} ELSE {} : c \in st.cs})
  IN [st  |-> [st EXCEPT !.cs = IF after = {} THEN @ ELSE after],
      bad |-> V(after # {}, "read: " \o e.ret)]
MStep(run, st, e) ==
  CASE e.op = "gather" -> Gathered(st, e)
    [] e.op = "read"   -> ReadOne(st, e)
    [] e.op = "send"   -> [st |-> [st EXCEPT !.out[e.p] = BCat(@, e.msg)], bad |-> V(e.ok, "send raised")]
    [] e.op = "cast"   -> [st |-> [st EXCEPT !.out = [p \in DOMAIN @ |-> BCat(@[p], e.msg)]], bad |-> V(e.ok, "broadcast raised")]
    [] e.op = "heard"  -> [st |-> st, bad |-> V(\A p \in DOMAIN e.got : e.got[p] = st.out[p], "not what was sent to the peer")]
    [] e.op = "connect" -> [st |-> st, bad |-> V(e.ok, "connect raised")]
    [] e.op = "again"  ->   \* closed and connected again
         [st |-> MStart(run), bad |-> V(e.ok, "connect raised")]
=============================================================================
