------------------------------ MODULE ShareMC ------------------------------
(* Exhaustive model of dealing, reconstruction and threshold evaluation over *)
(* a small field: every polynomial, every ordered quorum.                    *)
EXTENDS Zq, Sequences, FiniteSets, TLC
CONSTANT MaxN
ZValid(p) == p \in 0 .. Q - 1
T == INSTANCE Threshold WITH Add <- ZAdd, Sub <- ZSub, Mul <- ZMul, Inv <- ZInv, Num <- ZNum,
                             GAdd <- ZAdd, GMul <- ZMul, GValid <- ZValid, GBase <- ZNum, G0 <- 0, Canon <- ZValid
VARIABLES n, t, a, quorum, phase

Orders(k, m) == {f \in [1 .. m -> 1 .. k] : \A i, j \in 1 .. m : f[i] = f[j] => i = j}

Init == /\ n \in 1 .. MaxN /\ t \in 1 .. n
        /\ a \in [1 .. t -> 0 .. Q - 1]
        /\ quorum = <<>> /\ phase = "dealt"
(* shareholders answer one after the other, in any order *)
Answer == /\ phase = "dealt"
          /\ \E i \in 1 .. n : i \notin {quorum[k] : k \in 1 .. Len(quorum)} /\ quorum' = Append(quorum, i)
          /\ UNCHANGED <<n, t, a, phase>>
Combine == /\ phase = "dealt" /\ Len(quorum) >= t /\ phase' = "combined"
           /\ UNCHANGED <<n, t, a, quorum>>
Next == Answer \/ Combine

shares == T!Share(a, n)
qs     == [k \in 1 .. Len(quorum) |-> shares[quorum[k]]]
key    == a[1]
alpha  == 1

Sharing  == T!IsSharing(shares, t, key)
Recovers == phase = "combined" => T!Reconstruct(qs) = key
(* in this group an element is its discrete logarithm, the identity is 0 *)
Client   == phase = "combined" =>
  LET parts == [k \in 1 .. Len(quorum) |-> <<quorum[k], ZMul(qs[k][2], alpha)>>]
      x == T!ThresholdMult(parts)
  IN IF \E k \in 1 .. Len(quorum) : parts[k][2] = 0 THEN ~x.ok ELSE x.ok /\ x.v = ZMul(key, alpha)
Holders  == phase = "combined" =>
  LET e == [k \in 1 .. Len(quorum) |-> T!EvalPart(qs[k], alpha, quorum)]
      parts == [k \in 1 .. Len(quorum) |-> <<quorum[k], e[k].v>>]
  IN (\A k \in 1 .. Len(quorum) : e[k].ok) => T!Combine(parts) = [ok |-> TRUE, v |-> ZMul(key, alpha)]
(* fewer than t shares fit every secret, with exactly one polynomial of each completion *)
Secrecy == phase = "dealt" /\ Len(quorum) = t - 1 =>
  \A s \in 0 .. Q - 1 :
    Cardinality({b \in [1 .. t -> 0 .. Q - 1] : b[1] = s /\ \A k \in 1 .. Len(quorum) : T!Eval(b, quorum[k]) = qs[k][2]}) = 1
=============================================================================
