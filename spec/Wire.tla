-------------------------------- MODULE Wire -------------------------------
(* Cryptography and byte handling of the wire format; implemented in         *)
(* java/Wire.java with the JDK's primitives.                                 *)
LOCAL Undefined == CHOOSE x : x \notin {}
EdVerify(pk, msg, sig) == Undefined   \* Ed25519
Hmac(key, msg)         == Undefined   \* HMAC-SHA-512, first 32 bytes
AeadOpen(key, n, ct)   == Undefined   \* ChaCha20-Poly1305, nonce n; plaintext or "bad"
BHas(hay, needle)      == Undefined   \* needle occurs at some byte offset
HexLe(a, b)            == Undefined   \* unsigned comparison, equal lengths
U64Add(a, b)           == Undefined   \* saturating, 16 hex digits
U64Sub(a, b)           == Undefined
BPatch(a, off, b)      == Undefined   \* a with b written at byte offset off
BXorAt(a, off, x)      == Undefined   \* a with byte off xored with the number x
=============================================================================
