// TLC module override for Wire.tla: signatures, authenticators and encryption as used on the wire,
// taken from the JDK (no code shared with the library under test or libsodium).
import java.math.BigInteger;
import java.security.KeyFactory;
import java.security.Signature;
import java.security.spec.EdECPoint;
import java.security.spec.EdECPublicKeySpec;
import java.security.spec.NamedParameterSpec;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;
import javax.crypto.Cipher;
import javax.crypto.Mac;
import javax.crypto.spec.IvParameterSpec;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

public class Wire {
  static final ConcurrentHashMap<String, Boolean> ED = new ConcurrentHashMap<>();
  static boolean ed0(byte[] pk, byte[] msg, byte[] sig) {
    try {
      byte[] r = pk.clone();
      boolean odd = (r[31] & 0x80) != 0;
      r[31] &= 0x7f;
      for (int i = 0; i < 16; i++) { byte x = r[i]; r[i] = r[31 - i]; r[31 - i] = x; }
      EdECPublicKeySpec ks = new EdECPublicKeySpec(NamedParameterSpec.ED25519, new EdECPoint(odd, new BigInteger(1, r)));
      Signature s = Signature.getInstance("Ed25519");
      s.initVerify(KeyFactory.getInstance("Ed25519").generatePublic(ks));
      s.update(msg);
      return s.verify(sig);
    } catch (Exception e) { return false; }
  }
  public static Value EdVerify(Value pk, Value msg, Value sig) {
    String p = Prims.str(pk), m = Prims.str(msg), s = Prims.str(sig);
    String key = p + s + m;
    Boolean b = ED.get(key);
    if (b == null) {
      b = p.length() == 64 && s.length() == 128 && ed0(Prims.unhex(p), Prims.unhex(m), Prims.unhex(s));
      if (ED.size() < 300000 && m.length() < 4000) ED.put(key, b);
    }
    return b ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  // HMAC-SHA-512 truncated to 32 bytes
  public static Value Hmac(Value key, Value msg) {
    try {
      Mac m = Mac.getInstance("HmacSHA512");
      m.init(new SecretKeySpec(Prims.unhex(Prims.str(key)), "HmacSHA512"));
      return Prims.S(Prims.hex(Arrays.copyOf(m.doFinal(Prims.unhex(Prims.str(msg))), 32)));
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  // ChaCha20-Poly1305 with a 64 bit little endian counter nonce; "bad" if it does not open
  public static Value AeadOpen(Value key, Value nonce, Value ct) {
    try {
      byte[] n = new byte[12];
      int v = Prims.num(nonce);
      for (int i = 0; i < 4; i++) n[4 + i] = (byte) (v >> (8 * i));
      Cipher c = Cipher.getInstance("ChaCha20-Poly1305");
      c.init(Cipher.DECRYPT_MODE, new SecretKeySpec(Prims.unhex(Prims.str(key)), "ChaCha20"), new IvParameterSpec(n));
      return Prims.S(Prims.hex(c.doFinal(Prims.unhex(Prims.str(ct)))));
    } catch (Exception e) { return Prims.S("bad"); }
  }
  public static Value BHas(Value hay, Value needle) {
    String h = Prims.str(hay), n = Prims.str(needle);
    int i = h.indexOf(n);
    while (i >= 0 && (i & 1) != 0) i = h.indexOf(n, i + 1);
    return i >= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  // unsigned numbers of equal length, big endian
  public static Value HexLe(Value a, Value b) { return Prims.str(a).compareTo(Prims.str(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static final BigInteger M64 = BigInteger.ONE.shiftLeft(64);
  static Value u64(BigInteger x) {    // saturating
    if (x.signum() < 0) x = BigInteger.ZERO;
    if (x.compareTo(M64) >= 0) x = M64.subtract(BigInteger.ONE);
    String s = x.toString(16);
    return Prims.S("0000000000000000".substring(s.length()) + s);
  }
  public static Value U64Add(Value a, Value b) { return u64(new BigInteger(Prims.str(a), 16).add(new BigInteger(Prims.str(b), 16))); }
  public static Value U64Sub(Value a, Value b) { return u64(new BigInteger(Prims.str(a), 16).subtract(new BigInteger(Prims.str(b), 16))); }
  // replace the bytes at offset
  public static Value BPatch(Value a, Value off, Value b) {
    String s = Prims.str(a), p = Prims.str(b); int o = 2 * Prims.num(off);
    return Prims.S(s.substring(0, o) + p + s.substring(o + p.length()));
  }
  public static Value BXorAt(Value a, Value off, Value x) {
    String s = Prims.str(a); int o = 2 * Prims.num(off);
    int v = Integer.parseInt(s.substring(o, o + 2), 16) ^ Prims.num(x);
    return Prims.S(s.substring(0, o) + Prims.HX[(v >> 4) & 15] + Prims.HX[v & 15] + s.substring(o + 2));
  }
}
