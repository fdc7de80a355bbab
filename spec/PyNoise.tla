------------------------------ MODULE PyNoise ------------------------------
(* The secure channel as the Python module offers it: its calls are composed *)
(* from the operations of NoiseXK.  Result: [st, ok].                        *)
EXTENDS NoiseXK

OW(s, lv, len, pt) == [op |-> "write", s |-> s, lv |-> lv, len |-> len, pt |-> pt]
OR(s, m, alt, mlen) == [op |-> "read", s |-> s, m |-> m, alt |-> alt, mlen |-> mlen]
Nothing(st) == [st EXCEPT !.ms = Append(@, NoMessage)]
RECURSIVE AddAll(_, _, _)
AddAll(st, d, ks) == IF ks = <<>> THEN st ELSE AddAll(Apply(st, [op |-> "add", d |-> d, key |-> Head(ks), name |-> 1]).st, d, Tail(ks))

Reply(st, o) ==       \* read o.m, then answer
  LET r == Apply(st, OR(o.s, o.m, o.alt, o.mlen)) IN
  IF r.ok THEN Apply(r.st, OW(o.s, 0, 0, "")) ELSE [st |-> Nothing(r.st), ok |-> FALSE, id |-> 0]
PyApply(st, o) ==
  CASE o.op \in {"dev", "add", "init", "resp"} -> Apply(st, o)
    [] o.op = "first" -> Apply(st, OW(o.s, 0, 0, ""))
    [] o.op = "reply" -> Reply(st, o)
    [] o.op = "done"  -> Apply(st, OR(o.s, o.m, o.alt, o.mlen))
    [] o.op = "send"  -> Apply(st, OW(o.s, 5, o.len, o.pt))
    [] o.op = "recv"  -> LET r == Apply(st, OR(o.s, o.m, o.alt, o.mlen)) IN
                         [r EXCEPT !.ok = @ /\ (st.ms[o.m].len = 0 \/ AuthLevel(st.se[o.s]) >= 2)]
    \* the two calls that do everything up to the first message
    [] o.op = "isess" -> LET a == Apply(st, [op |-> "dev", key |-> o.key, pro |-> o.pro, sk |-> 0, name |-> 1]).st
                             d == Len(a.dv)
                             b == Apply(AddAll(a, d, <<o.rkey>>), [op |-> "init", d |-> d, id |-> 1]).st
                         IN Apply(b, OW(Len(b.se), 0, 0, ""))
    [] o.op = "rsess" -> LET a == Apply(st, [op |-> "dev", key |-> o.key, pro |-> o.pro, sk |-> 0, name |-> 1]).st
                             d == Len(a.dv)
                             b == Apply(AddAll(a, d, o.keys), [op |-> "resp", d |-> d]).st
                             s == Len(b.se)
                             r == Reply(b, [op |-> "reply", s |-> s, m |-> o.m, alt |-> o.alt, mlen |-> o.mlen])
                         IN r
    [] o.op = "who" -> [st |-> st, ok |-> st.se[o.s].d = o.d /\ ById(st.dv[o.d], st.se[o.s].pid).id # 0, id |-> 0]
=============================================================================
