-------------------------------- MODULE Mux --------------------------------
(* Collecting one message of a fixed length from each of several peers.      *)
(* env[p] = [data, end]: what peer p has sent so far, and whether its        *)
(* connection is open, closed or reset.  A reset may lose what was sent.     *)
(* c = [pos, dead]: how much of each peer's data previous collections have   *)
(* returned, and the peers that were found to be gone.                       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Size(_), Part(_, _, _),   \* length of data; n units of it after the first i
          Marker(_), Refused(_)     \* a report of failure; a message the caller does not want

RECURSIVE At(_, _, _, _)
At(s, pos, len, proc) ==
  IF proc /\ Size(s) - pos >= len /\ ~Marker(Part(s, pos, len)) /\ Refused(Part(s, pos, len)) THEN At(s, pos + len, len, proc) ELSE pos

(* what p can have answered: a message, or nothing *)
Answer(env, c, len, proc, p) ==
  LET s == env[p].data
      q == At(s, c.pos[p], len, proc)
      full == Size(s) - q >= len
      lost == env[p].end = "reset" \/ (env[p].end = "closed" /\ ~full)
  IN (IF ~full THEN {}
      ELSE IF Marker(Part(s, q, len)) THEN {[k |-> "none", v |-> <<>>, pos |-> q + len, gone |-> FALSE]}
      ELSE {[k |-> "msg", v |-> <<Part(s, q, len)>>, pos |-> q + len, gone |-> FALSE]})
     \cup (IF lost THEN {[k |-> "none", v |-> <<>>, pos |-> Size(s), gone |-> TRUE]} ELSE {})
Alive(env, c) == DOMAIN env \ c.dead
Ready(env, c, len, proc) == {p \in Alive(env, c) : Answer(env, c, len, proc, p) # {}}

(* one of these for each peer makes an outcome; "skip": its answer was not waited for *)
Options(env, c, len, proc, p) ==
  {[k |-> "skip", v |-> <<>>, pos |-> c.pos[p], gone |-> FALSE]} \cup (IF p \in c.dead THEN {} ELSE Answer(env, c, len, proc, p))
RECURSIVE Choices(_, _, _, _, _)
Choices(env, c, len, proc, k) ==
  IF k = 0 THEN {<<>>}
  ELSE {Append(ch, o) : ch \in Choices(env, c, len, proc, k - 1), o \in Options(env, c, len, proc, k)}
Counted(ch) == {p \in DOMAIN ch : ch[p].k # "skip"}
Collected(c, ch) == [pos |-> [p \in DOMAIN ch |-> ch[p].pos], dead |-> c.dead \cup {p \in DOMAIN ch : ch[p].gone}]

(* a list of results res is returned; the possible states after that *)
Returns(env, c, len, proc, n, res) ==
  {Collected(c, ch) : ch \in {x \in Choices(env, c, len, proc, Len(env)) :
      /\ Len(res) = Len(env)
      /\ \A p \in DOMAIN x : x[p].v = res[p]
      /\ Cardinality(Counted(x)) >= n
      /\ \E p \in DOMAIN x : x[p].k = "msg"}}
(* an error is raised *)
Raises(env, c, len, proc, n) ==
  {Collected(c, ch) : ch \in {x \in Choices(env, c, len, proc, Len(env)) :
      \/ Cardinality(Alive(env, c)) < n
      \/ Cardinality(Counted(x)) >= n /\ \A p \in DOMAIN x : x[p].k # "msg"}}
(* len units are read from peer p alone: all of them, or all there are when its connection has ended *)
Reads(env, c, len, p, res) ==
  LET s == env[p].data
      m == IF Size(s) - c.pos[p] < len THEN Size(s) - c.pos[p] ELSE len
  IN IF p \notin c.dead /\ (m = len \/ env[p].end = "closed") /\ res = Part(s, c.pos[p], m)
     THEN {[pos |-> [c.pos EXCEPT ![p] = @ + m], dead |-> c.dead \cup (IF m < len THEN {p} ELSE {})]}
     ELSE {}
(* there is nothing to wait for any more *)
MustEnd(env, c, len, proc, n) ==
  LET a == Ready(env, c, len, proc) IN Cardinality(a) >= n \/ a = Alive(env, c)
=============================================================================
