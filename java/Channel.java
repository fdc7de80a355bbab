// TLC module override for Channel.tla: key agreement and encryption of the secure channel, from the JDK.
import java.math.BigInteger;
import java.security.KeyFactory;
import java.security.PrivateKey;
import java.security.spec.NamedParameterSpec;
import java.security.spec.XECPrivateKeySpec;
import java.security.spec.XECPublicKeySpec;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;
import javax.crypto.Cipher;
import javax.crypto.KeyAgreement;
import javax.crypto.spec.IvParameterSpec;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.Value;

public class Channel {
  static final ConcurrentHashMap<String, String> DH = new ConcurrentHashMap<>();
  static BigInteger le(byte[] b) {
    byte[] r = b.clone();
    for (int i = 0; i < r.length / 2; i++) { byte x = r[i]; r[i] = r[r.length - 1 - i]; r[r.length - 1 - i] = x; }
    return new BigInteger(1, r);
  }
  static String dh0(byte[] priv, byte[] pub) {
    try {
      KeyFactory kf = KeyFactory.getInstance("X25519");
      PrivateKey k = kf.generatePrivate(new XECPrivateKeySpec(NamedParameterSpec.X25519, priv));
      byte[] p = pub.clone();
      p[31] &= 0x7f;
      KeyAgreement a = KeyAgreement.getInstance("X25519");
      a.init(k);
      a.doPhase(kf.generatePublic(new XECPublicKeySpec(NamedParameterSpec.X25519, le(p))), true);
      byte[] s = a.generateSecret();
      byte any = 0;
      for (byte x : s) any |= x;
      return any == 0 ? "" : Prims.hex(s);
    } catch (Exception e) { return ""; }
  }
  // shared secret, "" if it would be zero
  public static Value X25519(Value priv, Value pub) {
    String a = Prims.str(priv), b = Prims.str(pub);
    if (a.length() != 64 || b.length() != 64) return Prims.S("");
    return Prims.S(DH.computeIfAbsent(a + b, x -> dh0(Prims.unhex(a), Prims.unhex(b))));
  }
  static Cipher cipher(int mode, Value key, Value nonce, Value ad) throws Exception {
    byte[] n = new byte[12];
    int v = Prims.num(nonce);
    for (int i = 0; i < 4; i++) n[4 + i] = (byte) (v >> (8 * i));
    Cipher c = Cipher.getInstance("ChaCha20-Poly1305");
    c.init(mode, new SecretKeySpec(Prims.unhex(Prims.str(key)), "ChaCha20"), new IvParameterSpec(n));
    byte[] a = Prims.unhex(Prims.str(ad));
    if (a.length > 0) c.updateAAD(a);
    return c;
  }
  public static Value Seal(Value key, Value nonce, Value ad, Value pt) {
    try { return Prims.S(Prims.hex(cipher(Cipher.ENCRYPT_MODE, key, nonce, ad).doFinal(Prims.unhex(Prims.str(pt))))); }
    catch (Exception e) { throw new RuntimeException(e); }
  }
  public static Value Unseal(Value key, Value nonce, Value ad, Value ct) {
    try { return Prims.S(Prims.hex(cipher(Cipher.DECRYPT_MODE, key, nonce, ad).doFinal(Prims.unhex(Prims.str(ct))))); }
    catch (Exception e) { return Prims.S("bad"); }
  }
}
