------------------------------- MODULE PyGen -------------------------------
(* Calls of the Python binding: every exported function with proper          *)
(* arguments, with each deviation of one argument and (PAIRS = 1) of two.    *)
EXTENDS Integers, Sequences, IOUtils, CSV, Json, TLC, FiniteSets

Type == {"str", "ustr", "bytearray", "memoryview", "none", "int", "list"}
Len32 == {"len0", "len-1", "len+1", "len*2"} \cup Type
Devs ==
  [in255 |-> {"n0", "n1", "n255", "n256", "n257", "n300", "n512", "n65540"} \cup Type,
   in64k |-> {"n0", "n1", "n256", "n65535", "n65536", "n65537", "n65800", "n131072"} \cup Type,
   scalar |-> {"zero"} \cup Len32,
   elem  |-> {"identity", "bad", "top"} \cup Len32,
   share |-> Len32,
   i     |-> {"0", "-1", "255", "256", "257", "65537", "+2^32", "+2^64", "float", "str", "none", "bool", "-255"},
   n     |-> {"0", "1", "-1", "=t", "<t", "255", "256", "+256", "+65536", "+2^32", "+2^64", "-256+", "float", "str", "none"},
   t     |-> {"0", "1", "-1", "=n", ">n", "256", "+256", "+2^32", "float", "none"},
   self  |-> {"0", "-1", "n", "n+1", "255", "256", "+256", "+2^32", "+65536", "float", "none", "str"},
   idxs  |-> {"tuple", "has0", "has256", "has-1", "big", "256", "65537", "bytes", "str", "none", "floats", "empty", "without"},
   peers |-> {"tuple", "has0", "has256", "has-1", "big", "256", "bytes", "str", "none", "floats", "empty", "one"},
   parts |-> {"tuple", "0", "1", "2", "255", "256", "257", "short", "long", "moved", "strpart", "bytearraypart", "badpart", "bytes", "str", "none", "nonepart", "dup"},
   shares |-> {"tuple", "fewer", "more", "short", "long", "moved", "strpart", "bytearraypart", "wrong", "bytes", "none"},
   rshares |-> {"tuple", "0", "1", "255", "256", "short", "long", "moved", "strpart", "bytearraypart", "bytes", "none"},
   coms  |-> {"len-1", "len+1", "len0", "fewer", "more", "str", "bytearray", "list", "none", "wrong"},
   eps   |-> {"0", "-1", "2^31", "2^32", "2^32+5", "2^63", "2^64-1", "2^64", "2^64+5", "float", "str", "none"},
   name  |-> {"b0", "b1", "b1024", "b1025", "b17", "s0", "s1", "s17", "s1024", "s1025", "su5", "su600", "bytearray", "none", "int"},
   pks   |-> {"tuple", "fewer", "more", "short", "long", "moved", "strpart", "bytes", "none", "empty"},
   sk    |-> {"len0", "len-1", "len+1", "len32", "str", "bytearray", "none"},
   msg0  |-> {"len0", "len-1", "len+1", "str", "bytearray", "none", "other"}]
Sig ==
  [keygen |-> <<>>, blind |-> <<"in255">>, evaluate |-> <<"scalar", "elem">>, unblind |-> <<"scalar", "elem">>, finalize |-> <<"in64k", "elem">>,
   unblind_finalize |-> <<"scalar", "elem", "in64k">>, coeff |-> <<"i", "peers">>, create_shares |-> <<"scalar", "n", "t">>,
   thresholdmult |-> <<"parts">>, threshold_combine |-> <<"parts">>, threshold_evaluate |-> <<"share", "elem", "self", "idxs">>,
   thtdh |-> <<"share", "share", "elem", "in64k">>, dkg_start |-> <<"n", "t">>,
   dkg_verify_commitments |-> <<"n", "t", "self", "coms", "shares">>, dkg_finish |-> <<"n", "shares", "self">>, dkg_reconstruct |-> <<"rshares">>,
   start_tp |-> <<"n", "t", "eps", "name", "pks">>, peer_start |-> <<"eps", "sk", "msg0">>, pubkey |-> <<"scalar">>]

Sizes == {<<2, 2>>, <<3, 2>>, <<5, 3>>, <<7, 7>>}
Two == IOEnv.PAIRS = "1"
Base(f) == [k \in DOMAIN Sig[f] |-> "ok"]
Plans(f) ==
  LET s == Sig[f] IN
  {Base(f)}
  \cup UNION {{[Base(f) EXCEPT ![k] = d] : d \in Devs[s[k]]} : k \in DOMAIN s}
  \cup IF Two THEN UNION {{[Base(f) EXCEPT ![k] = d, ![j] = c] : d \in Devs[s[k]], c \in Devs[s[j]]} : <<k, j>> \in {x \in (DOMAIN s) \X (DOMAIN s) : x[1] < x[2]}}
     ELSE {}
VARIABLE x
All == UNION {{[f |-> f, kinds |-> Sig[f], dev |-> p, n |-> z[1], t |-> z[2]] : p \in Plans(f), z \in IF Two THEN {<<5, 3>>} ELSE Sizes} : f \in DOMAIN Sig}
Init == \E p \in All : x = <<p>>
Next == x # <<>> /\ CSVWrite("%1$s", <<ToJson(x[1])>>, IOEnv.OUT) /\ x' = <<>>
=============================================================================
