------------------------------- MODULE MuxMC -------------------------------
(* A collector that reads whatever arrives piecemeal, with peers that write, *)
(* stall, fail and vanish at any time, against what Mux admits.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

P == atoi(IOEnv.PEERS)
Rounds == atoi(IOEnv.ROUNDS)
MaxMsgs == Rounds
L == 2                                 \* units of a message
Kinds == {"m", "f", "x"}

(* a unit is <<peer, number, kind of the message it belongs to>> *)
M == INSTANCE Mux WITH Size   <- LAMBDA s : Len(s),
                       Part   <- LAMBDA s, i, n : SubSeq(s, i + 1, i + n),
                       Marker <- LAMBDA m : \A k \in DOMAIN m : m[k][3] = "f",
                       Refused <- LAMBDA m : \A k \in DOMAIN m : m[k][3] = "x"

VARIABLES kinds,       \* of the messages of each peer
          env, c,      \* as in Mux
          n,           \* answers wanted; 0: no collection in progress
          c0,          \* c when it began
          round, buf, ans, fine
vars == <<kinds, env, c, c0, n, round, buf, ans, fine>>
Ps == 1 .. P

Init == /\ kinds \in [Ps -> {k \in [1 .. MaxMsgs -> Kinds] : Cardinality({i \in DOMAIN k : k[i] # "m"}) <= 1}]
        /\ env = [p \in Ps |-> [data |-> <<>>, end |-> "open"]]
        /\ c = [pos |-> [p \in Ps |-> 0], dead |-> {}]
        /\ c0 = c
        /\ n = 0 /\ round = 0
        /\ buf = [p \in Ps |-> <<>>]
        /\ ans = [p \in Ps |-> <<"wait">>]
        /\ fine = TRUE

Write(p) == /\ env[p].end = "open" /\ Len(env[p].data) < L * MaxMsgs
            /\ LET i == Len(env[p].data) IN env' = [env EXCEPT ![p].data = Append(@, <<p, i, kinds[p][i \div L + 1]>>)]
            /\ UNCHANGED <<kinds, c, c0, n, round, buf, ans, fine>>
End(p, e) == /\ env[p].end = "open"
             /\ env' = [env EXCEPT ![p].end = e]
             /\ UNCHANGED <<kinds, c, c0, n, round, buf, ans, fine>>

Begin(k) == /\ n = 0 /\ round < Rounds
            /\ n' = k /\ round' = round + 1
            /\ ans' = [p \in Ps |-> IF p \in c.dead THEN <<"gone">> ELSE <<"wait">>]
            /\ c0' = c
            /\ UNCHANGED <<kinds, env, c, buf, fine>>
Is(p, k) == ans[p][1] = k
Answered == {p \in Ps : Is(p, "none") \/ Is(p, "msg")}
(* the collector: pos is where the message being read begins *)
pos(p) == c.pos[p]
Unread(p) == Len(env[p].data) - pos(p) - Len(buf[p])
Read(p) == /\ n > 0 /\ Is(p, "wait") /\ Unread(p) > 0
           /\ LET b == Append(buf[p], env[p].data[pos(p) + Len(buf[p]) + 1]) IN
              IF Len(b) < L THEN buf' = [buf EXCEPT ![p] = b] /\ UNCHANGED <<ans, c>>
              ELSE /\ buf' = [buf EXCEPT ![p] = <<>>]
                   /\ c' = [c EXCEPT !.pos[p] = @ + L]
                   /\ ans' = [ans EXCEPT ![p] = IF b[1][3] = "x" THEN @ ELSE IF b[1][3] = "f" THEN <<"none">> ELSE <<"msg", b>>]
           /\ UNCHANGED <<kinds, env, c0, n, round, fine>>
Notice(p) == /\ n > 0 /\ Is(p, "wait")
             /\ (Unread(p) = 0 /\ env[p].end # "open") \/ env[p].end = "reset"
             /\ ans' = [ans EXCEPT ![p] = <<"none">>]
             /\ c' = [pos |-> [c.pos EXCEPT ![p] = Len(env[p].data)], dead |-> c.dead \cup {p}]
             /\ buf' = [buf EXCEPT ![p] = <<>>]
             /\ UNCHANGED <<kinds, env, c0, n, round, fine>>

Result == [p \in Ps |-> IF Is(p, "msg") THEN <<ans[p][2]>> ELSE <<>>]
Stop(ok) == /\ n' = 0 /\ fine' = ok
            /\ UNCHANGED <<kinds, env, c, c0, round, buf, ans>>
Return == /\ n > 0 /\ Cardinality(Answered) >= n
          /\ Stop(IF \E p \in Answered : Is(p, "msg") THEN M!Returns(env, c0, L, TRUE, n, Result) # {}
                                                         ELSE M!Raises(env, c0, L, TRUE, n) # {})
GiveUp == /\ n > 0 /\ Cardinality(Answered) < n /\ \A p \in Ps : ~Is(p, "wait")
          /\ Stop(M!Raises(env, c0, L, TRUE, n) # {})
Work == Return \/ GiveUp \/ \E p \in Ps : Read(p) \/ Notice(p)
Next == \/ \E p \in Ps : Write(p) \/ End(p, "closed") \/ End(p, "reset")
        \/ \E k \in 1 .. P : Begin(k)
        \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

Admitted == fine
(* each answer is a message of that peer, in order *)
Attributed == \A p \in Ps : Is(p, "msg") =>
                 LET m == ans[p][2] IN
                 /\ Len(m) = L
                 /\ \A k \in 1 .. L : m[k][1] = p /\ m[k][2] = m[1][2] + k - 1
                 /\ m[1][2] % L = 0
(* it waits only if there is something to wait for *)
Ends == (n > 0 /\ M!MustEnd(env, c0, L, TRUE, n)) ~> n = 0
=============================================================================
