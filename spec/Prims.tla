------------------------------- MODULE Prims -------------------------------
(* Byte strings (lower-case hex), SHA-512, BLAKE2b and the ristretto255     *)
(* prime-order group.  The definitions below fix only the types: TLC uses   *)
(* the Java implementation in java/Prims.java, written from RFC 9496, FIPS  *)
(* 180 and RFC 7693 independently of the library under test and of          *)
(* libsodium.  Everything above this module is plain TLA+.                  *)
EXTENDS Integers, Sequences

LOCAL Undefined == CHOOSE x : x \notin {}

(* bytes *)
BLen(a)          == Undefined   \* number of bytes
BCat(a, b)       == Undefined
BSub(a, i, j)    == Undefined   \* bytes i .. j-1, counted from 0
BXor(a, b)       == Undefined
I2OSP(i, n)      == Undefined   \* big endian
BByte(a, i)      == Undefined   \* byte i as a number
BitOnes(s, k)    == Undefined   \* how many of a sequence of byte strings have bit k set (bit 0: least significant of byte 0)
BZero(n)         == Undefined
Ascii(s)         == Undefined

(* hashes *)
Sha512(a)        == Undefined
Blake2b(a, n)    == Undefined   \* unkeyed, n bytes of output

(* scalars, 32 bytes little endian, modulo the group order *)
SInt(i)          == Undefined
SAdd(a, b)       == Undefined
SSub(a, b)       == Undefined
SMul(a, b)       == Undefined
SInv(a)          == Undefined   \* SInv(0) = 0
SCanon(a)        == Undefined   \* canonical encoding?
SRed(a)          == Undefined   \* reduce any byte string (little endian)

(* group elements, canonical 32 byte encodings *)
PValid(p)        == Undefined
PAdd(p, q)       == Undefined
PMul(s, p)       == Undefined
PBase(s)         == Undefined
PFromHash(h)     == Undefined   \* 64 bytes -> element
P0               == "0000000000000000000000000000000000000000000000000000000000000000"
S0               == P0
=============================================================================
