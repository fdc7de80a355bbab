------------------------------- MODULE Channel -----------------------------
(* Key agreement and authenticated encryption; implemented in                *)
(* java/Channel.java with the JDK's primitives.                              *)
LOCAL Undefined == CHOOSE x : x \notin {}
X25519(priv, pub)     == Undefined   \* RFC 7748; "" if the result is zero
Seal(key, n, ad, pt)  == Undefined   \* ChaCha20-Poly1305 (RFC 8439), nonce: 4 zero bytes and n as 8 bytes little endian
Unseal(key, n, ad, c) == Undefined   \* plaintext, or "bad"
=============================================================================
