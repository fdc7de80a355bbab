------------------------------ MODULE NoiseXK ------------------------------
(* Devices, peer registries, stored secrets and secure-channel sessions as    *)
(* the user of the channel sees them.  Cryptography is ideal: a message can   *)
(* be read only where the reader's view of the conversation (prologue,        *)
(* responder key, all previous messages) equals the writer's.                 *)
(*                                                                            *)
(* Apply(st, o) is the successor of state st and the visible result of the    *)
(* operation o.  The model checker (NoiseMC), the generator of test programs  *)
(* (NoiseGen) and the conformance check (NoiseTrace) all use this function.   *)
(*                                                                            *)
(* st.dv  device number -> device        st.se  sequence of sessions          *)
(* st.ms  sequence of messages written   st.bl  sequence of stored secrets    *)
(* (every attempt counts: a refused write leaves the message NoMessage, a     *)
(* refused session is dead, so numbers never shift)                           *)
(* Keys, prologues, storage keys and names are small numbers; 0 is the empty  *)
(* prologue and the missing name.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

St0 == [dv |-> <<>>, se |-> <<>>, ms |-> <<>>, bl |-> <<>>]

Device(k, p, sk, nm) == [key |-> k, pro |-> p, sk |-> sk, name |-> nm, peers |-> <<>>, next |-> 1, left |-> -1]
NoDevice == [key |-> 0, pro |-> 0, sk |-> 0, name |-> 0, peers |-> <<>>, next |-> 0, left |-> 0]
Live(d) == d.next > 0

(* ---------------------------------------------------------------- registry *)
(* peers: sequence of [id, key, name], the order is of no consequence; next: next identifier; left: how   *)
(* many sessions can still be opened, -1 unless that has been limited by "wane", which moves both       *)
(* identifier counters close to their ends.  The last identifier is never handed out.                   *)
LastId == 5000
PeerIds(d)  == {d.peers[i].id : i \in DOMAIN d.peers}
PeerKeys(d) == {d.peers[i].key : i \in DOMAIN d.peers}
NoPeer == [id |-> 0, key |-> 0, name |-> 0]
ById(d, id) == IF id \in PeerIds(d) /\ id # 0 THEN d.peers[CHOOSE i \in DOMAIN d.peers : d.peers[i].id = id] ELSE NoPeer
ByKey(d, k) == IF k \in PeerKeys(d) THEN d.peers[CHOOSE i \in DOMAIN d.peers : d.peers[i].key = k] ELSE NoPeer
AddPeer(d, k, nm) ==
  IF k \in PeerKeys(d) \/ d.next = LastId THEN d
  ELSE [d EXCEPT !.peers = Append(@, [id |-> d.next, key |-> k, name |-> nm]), !.next = @ + 1]
Added(d, k) == IF k \in PeerKeys(d) \/ d.next = LastId THEN 0 ELSE d.next
RemovePeer(d, id) == LET keep(p) == p.id # id \/ id = 0 IN [d EXCEPT !.peers = SelectSeq(@, keep)]

(* ---------------------------------------------------------------- sessions *)
(* ph: "hs" handshake, "tr" transport, "dead", "maybe": a handshake that was  *)
(* misused in a way that may or may not have ended it.                        *)
(* h: <<prologue, responder key, number of message 1, 2, 3>>                  *)
Initiator(d, p) == [d |-> d, role |-> "I", ph |-> "hs", key |-> 0, h |-> <<0, p.key>>, pid |-> p.id, pname |-> p.name, rk |-> p.key,
                    sn |-> 0, rn |-> 0, heard |-> FALSE]
Responder(d) == [d |-> d, role |-> "R", ph |-> "hs", key |-> 0, h |-> <<0, 0>>, pid |-> 0, pname |-> 0, rk |-> 0,
                 sn |-> 0, rn |-> 0, heard |-> FALSE]
TurnOf(s) == Len(s.h) - 2                    \* number of the next handshake message
Writes(s) == (s.role = "I") = (TurnOf(s) % 2 = 0)
MinLen(s) == IF s.ph = "tr" THEN 16 ELSE IF TurnOf(s) = 2 THEN 64 ELSE 48

(* security levels of the XK pattern *)
ConfLevel(s) == IF s.ph = "tr" THEN 5 ELSE <<2, 1, 5>>[TurnOf(s) + 1]
ConfOk(req, have) == \/ req = 0
                     \/ req = 1 /\ (have = 1 \/ have >= 3)
                     \/ req >= 2 /\ have >= req
AuthLevel(s) == IF s.ph = "tr" THEN 2 ELSE <<0, 2, 2>>[TurnOf(s) + 1]

Advance(s, m) ==
  LET n == [s EXCEPT !.h = Append(@, m)] IN IF Len(n.h) = 5 THEN [n EXCEPT !.ph = "tr"] ELSE n

(* The message counters of a session may be moved forward ("jump"), to just below the k-th of *)
(* 2^8, 2^16, 2^31, 2^32, 2^63 and 2^64-1; the abstract counter is then k * Leap.  The last   *)
(* count is never used.                                                                       *)
Leap == 1000000
LastCount == 6 * Leap + 2

(* o.s writes a payload of o.len bytes at confidentiality level o.lv *)
WriteOk(s, o) ==
  CASE s.ph = "dead" -> FALSE
    [] s.ph = "tr"   -> s.sn # LastCount /\ (o.len = 0 \/ ConfOk(o.lv, 5))
    [] OTHER         -> Writes(s) /\ (o.len = 0 \/ ConfOk(o.lv, ConfLevel(s)))
Message(st, o) ==
  LET s == st.se[o.s] IN
  [by |-> o.s, role |-> s.role, kind |-> IF s.ph = "tr" THEN "tr" ELSE "hs", h |-> s.h, n |-> s.sn,
   key |-> st.dv[s.d].key, len |-> o.len, pt |-> o.pt]
AfterWrite(st, o) ==
  LET s == st.se[o.s] m == Len(st.ms) + 1 IN
  [st EXCEPT !.ms = Append(@, Message(st, o)),
             !.se[o.s] = IF s.ph = "tr" THEN [s EXCEPT !.sn = @ + 1] ELSE Advance([s EXCEPT !.ph = "hs"], m)]

(* o.s is given message number o.m; o.alt = 0: as it was written *)
ReadOk(st, o) ==
  LET s == st.se[o.s] IN
  /\ o.m \in DOMAIN st.ms
  /\ o.alt = 0
  /\ LET m == st.ms[o.m] IN
     CASE s.ph = "dead" -> FALSE
       [] s.ph = "tr"   -> m.kind = "tr" /\ m.h = s.h /\ m.role # s.role /\ m.n = s.rn /\ s.rn # LastCount
       [] OTHER         -> /\ ~Writes(s) /\ m.kind = "hs" /\ m.h = s.h /\ m.role # s.role
                           /\ TurnOf(s) = 2 => m.key \in PeerKeys(st.dv[s.d])
AfterRead(st, o) ==
  LET s == st.se[o.s] m == st.ms[o.m] IN
  [st EXCEPT !.se[o.s] =
     IF s.ph = "tr" THEN [s EXCEPT !.rn = @ + 1, !.heard = TRUE]
     ELSE LET n == Advance([s EXCEPT !.ph = "hs"], o.m) IN
          IF TurnOf(s) = 2 THEN LET p == ByKey(st.dv[s.d], m.key) IN [n EXCEPT !.pid = p.id, !.pname = p.name, !.rk = p.key] ELSE n]
(* a rejected message ends a handshake whose turn it was; whether misuse does (a message out of turn or too short) is left open *)
AfterReject(st, o) ==
  LET s == st.se[o.s] IN
  IF s.ph \in {"tr", "dead"} THEN st
  ELSE [st EXCEPT !.se[o.s].ph = IF Writes(s) \/ o.mlen < MinLen(s) THEN "maybe" ELSE "dead"]
NoMessage == [by |-> 0, role |-> "", kind |-> "none", h |-> <<>>, n |-> 0, key |-> 0, len |-> 0, pt |-> ""]
AfterRefusal(st, o) ==     \* a write that was refused
  LET s == [st EXCEPT !.ms = Append(@, NoMessage)] IN
  IF st.se[o.s].ph \in {"tr", "dead"} THEN s ELSE [s EXCEPT !.se[o.s].ph = "maybe"]

Opened(d) == IF d.left > 0 THEN [d EXCEPT !.left = @ - 1] ELSE d

(* ---------------------------------------------------------------- operations *)
(* Result: [st, ok, id, b] - successor, success, identifier handed out *)
Res(st, ok, id) == [st |-> st, ok |-> ok, id |-> id]
Apply(st, o) ==
  CASE o.op = "dev"  -> Res([st EXCEPT !.dv = Append(@, Device(o.key, o.pro, o.sk, o.name))], TRUE, 0)
    [] o.op = "add"  -> LET d == st.dv[o.d] IN Res([st EXCEPT !.dv[o.d] = AddPeer(d, o.key, o.name)], Added(d, o.key) # 0, Added(d, o.key))
    [] o.op = "rm"   -> Res([st EXCEPT !.dv[o.d] = RemovePeer(@, o.id)], TRUE, 0)
    [] o.op = "save" -> LET d == st.dv[o.d] p == ById(d, o.id) IN
                        Res([st EXCEPT !.bl = Append(@, [kind |-> IF p.id = 0 THEN "none" ELSE "peer", key |-> p.key, name |-> p.name, sk |-> d.sk])], p.id # 0, 0)
    [] o.op = "savedev" -> LET d == st.dv[o.d] IN
                        Res([st EXCEPT !.bl = Append(@, [kind |-> "dev", key |-> d.key, name |-> d.name, sk |-> d.sk])], TRUE, 0)
    [] o.op = "load" -> LET d == st.dv[o.d] b == st.bl[o.b]
                            opens == b.kind = "peer" /\ b.sk = d.sk /\ b.name = o.name /\ o.alt = 0 IN
                        IF opens THEN Res([st EXCEPT !.dv[o.d] = AddPeer(d, b.key, o.name)], Added(d, b.key) # 0, Added(d, b.key))
                        ELSE Res(st, FALSE, 0)
    [] o.op = "loaddev" -> LET b == st.bl[o.b]
                               opens == b.kind = "dev" /\ b.sk = o.sk /\ b.name = o.name /\ o.alt = 0 IN
                           Res([st EXCEPT !.dv = Append(@, IF opens THEN Device(b.key, o.pro, o.sk, o.name) ELSE NoDevice)], opens, 0)
    [] o.op = "init" -> LET d == st.dv[o.d] p == ById(d, o.id) IN
                        IF p.id = 0 \/ d.left = 0 THEN Res([st EXCEPT !.se = Append(@, [Initiator(o.d, p) EXCEPT !.ph = "dead"])], FALSE, 0)
                        ELSE Res([st EXCEPT !.se = Append(@, [Initiator(o.d, p) EXCEPT !.h = <<d.pro, p.key>>]), !.dv[o.d] = Opened(@)], TRUE, 0)
    [] o.op = "resp" -> LET d == st.dv[o.d] s == [Responder(o.d) EXCEPT !.h = <<d.pro, d.key>>] IN
                        IF d.left = 0 THEN Res([st EXCEPT !.se = Append(@, [s EXCEPT !.ph = "dead"])], FALSE, 0)
                        ELSE Res([st EXCEPT !.se = Append(@, s), !.dv[o.d] = Opened(@)], TRUE, 0)
    [] o.op = "wane" -> Res([st EXCEPT !.dv[o.d].next = LastId - 2, !.dv[o.d].left = 2], TRUE, 0)
    [] o.op = "write" -> IF WriteOk(st.se[o.s], o) THEN Res(AfterWrite(st, o), TRUE, 0) ELSE Res(AfterRefusal(st, o), FALSE, 0)
    [] o.op = "read" -> IF ReadOk(st, o) THEN Res(AfterRead(st, o), TRUE, 0) ELSE Res(AfterReject(st, o), FALSE, 0)
    [] o.op = "jump" -> Res([st EXCEPT !.se[o.s].sn = o.k * Leap, !.se[o.r].rn = o.k * Leap], TRUE, 0)
    [] o.op = "burst" -> Res([st EXCEPT !.se[o.s].sn = @ + o.n, !.se[o.r].rn = @ + o.n, !.se[o.r].heard = TRUE], TRUE, 0)   \* o.n messages, all delivered in order
    [] OTHER -> Res(st, FALSE, 0)
=============================================================================
