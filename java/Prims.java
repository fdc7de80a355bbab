// TLC module override for Prims.tla: byte strings (lower-case hex), SHA-512, BLAKE2b and the
// ristretto255 prime-order group, written from RFC 9496 / RFC 7693 with BigInteger only.
// It shares no code with the library under test nor with libsodium.
import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Prims {
  // ---------------------------------------------------------------- helpers
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static int num(Value v) { return ((IntValue) v).val; }
  static Value S(String s) { return new StringValue(s); }
  static Value B(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static final char[] HX = "0123456789abcdef".toCharArray();
  static byte[] unhex(String s) {
    int n = s.length();
    if ((n & 1) != 0) throw new IllegalArgumentException("odd hex " + s);
    byte[] r = new byte[n / 2];
    for (int i = 0; i < r.length; i++) {
      int a = Character.digit(s.charAt(2 * i), 16), b = Character.digit(s.charAt(2 * i + 1), 16);
      if (a < 0 || b < 0) throw new IllegalArgumentException("bad hex " + s);
      r[i] = (byte) (16 * a + b);
    }
    return r;
  }
  static String hex(byte[] b) {
    char[] c = new char[2 * b.length];
    for (int i = 0; i < b.length; i++) { c[2 * i] = HX[(b[i] >> 4) & 15]; c[2 * i + 1] = HX[b[i] & 15]; }
    return new String(c);
  }

  // ---------------------------------------------------------------- bytes
  public static Value BLen(Value a) { return IntValue.gen(str(a).length() / 2); }
  public static Value BCat(Value a, Value b) { return S(str(a) + str(b)); }
  public static Value BSub(Value a, Value from, Value to) {
    return S(str(a).substring(2 * num(from), 2 * num(to)));
  }
  public static Value BXor(Value a, Value b) {
    byte[] x = unhex(str(a)), y = unhex(str(b)), r = new byte[x.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) (x[i] ^ y[i]);
    return S(hex(r));
  }
  public static Value I2OSP(Value i, Value len) {
    int n = num(len); long v = num(i); byte[] r = new byte[n];
    for (int k = n - 1; k >= 0; k--) { r[k] = (byte) v; v >>= 8; }
    return S(hex(r));
  }
  public static Value BByte(Value a, Value i) {
    return IntValue.gen(Integer.parseInt(str(a).substring(2 * num(i), 2 * num(i) + 2), 16));
  }
  // of a sequence of byte strings: how many have bit k (counted from the least significant of byte 0) set
  public static Value BitOnes(Value seq, Value k) {
    Value[] e = ((TupleValue) seq.toTuple()).elems;
    int b = num(k), n = 0;
    for (Value v : e) n += (Integer.parseInt(str(v).substring(2 * (b / 8), 2 * (b / 8) + 2), 16) >> (b % 8)) & 1;
    return IntValue.gen(n);
  }
  public static Value BZero(Value n) { return S(hex(new byte[num(n)])); }
  public static Value Ascii(Value a) {
    try { return S(hex(str(a).getBytes("US-ASCII"))); } catch (Exception e) { throw new RuntimeException(e); }
  }

  // ---------------------------------------------------------------- hashes
  public static Value Sha512(Value a) {
    try { return S(hex(MessageDigest.getInstance("SHA-512").digest(unhex(str(a))))); }
    catch (Exception e) { throw new RuntimeException(e); }
  }
  public static Value Blake2b(Value a, Value outlen) { return S(hex(b2raw(unhex(str(a)), num(outlen)))); }

  static final long[] IV = { 0x6A09E667F3BCC908L, 0xBB67AE8584CAA73BL, 0x3C6EF372FE94F82BL, 0xA54FF53A5F1D36F1L,
      0x510E527FADE682D1L, 0x9B05688C2B3E6C1FL, 0x1F83D9ABFB41BD6BL, 0x5BE0CD19137E2179L };
  static final int[][] SIG = { { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 },
      { 14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3 }, { 11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4 },
      { 7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8 }, { 9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13 },
      { 2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9 }, { 12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11 },
      { 13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10 }, { 6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5 },
      { 10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0 } };
  static void g(long[] v, int a, int b, int c, int d, long x, long y) {
    v[a] += v[b] + x; v[d] = Long.rotateRight(v[d] ^ v[a], 32); v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 24);
    v[a] += v[b] + y; v[d] = Long.rotateRight(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 63);
  }
  static byte[] b2raw(byte[] in, int outlen) {
    long[] h = IV.clone();
    h[0] ^= 0x01010000L ^ outlen;
    int nb = Math.max(1, (in.length + 127) / 128);
    for (int blk = 0; blk < nb; blk++) {
      byte[] buf = new byte[128];
      int l = Math.min(128, in.length - blk * 128);
      if (l > 0) System.arraycopy(in, blk * 128, buf, 0, l);
      long t = blk == nb - 1 ? in.length : (blk + 1) * 128L;
      long[] m = new long[16];
      for (int i = 0; i < 128; i++) m[i / 8] |= (buf[i] & 0xffL) << (8 * (i % 8));
      long[] v = new long[16];
      System.arraycopy(h, 0, v, 0, 8); System.arraycopy(IV, 0, v, 8, 8);
      v[12] ^= t; if (blk == nb - 1) v[14] = ~v[14];
      for (int r = 0; r < 12; r++) {
        int[] s = SIG[r % 10];
        g(v, 0, 4, 8, 12, m[s[0]], m[s[1]]); g(v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(v, 2, 6, 10, 14, m[s[4]], m[s[5]]); g(v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(v, 0, 5, 10, 15, m[s[8]], m[s[9]]); g(v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(v, 2, 7, 8, 13, m[s[12]], m[s[13]]); g(v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
      }
      for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }
    byte[] out = new byte[outlen];
    for (int i = 0; i < outlen; i++) out[i] = (byte) (h[i / 8] >>> (8 * (i % 8)));
    return out;
  }

  // ---------------------------------------------------------------- scalars mod ell
  static final BigInteger L = BigInteger.ONE.shiftLeft(252).add(new BigInteger("27742317777372353535851937790883648493"));
  static BigInteger le(byte[] b) {
    byte[] r = new byte[b.length + 1];
    for (int i = 0; i < b.length; i++) r[b.length - i] = b[i];
    return new BigInteger(r);
  }
  static byte[] tole(BigInteger x) {
    byte[] r = new byte[32], b = x.toByteArray();
    for (int i = 0; i < b.length && i < 32; i++) r[i] = b[b.length - 1 - i];
    return r;
  }
  static BigInteger sc(Value v) { return le(unhex(str(v))); }
  static Value sv(BigInteger x) { return S(hex(tole(x.mod(L)))); }
  public static Value SInt(Value i) { return sv(BigInteger.valueOf(num(i))); }
  public static Value SAdd(Value a, Value b) { return sv(sc(a).add(sc(b))); }
  public static Value SSub(Value a, Value b) { return sv(sc(a).subtract(sc(b))); }
  public static Value SMul(Value a, Value b) { return sv(sc(a).multiply(sc(b))); }
  public static Value SInv(Value a) {
    BigInteger x = sc(a).mod(L);
    return x.signum() == 0 ? sv(x) : sv(x.modInverse(L));
  }
  public static Value SCanon(Value a) { String s = str(a); return B(s.length() == 64 && sc(a).compareTo(L) < 0); }
  public static Value SRed(Value a) { return sv(sc(a)); }

  // ---------------------------------------------------------------- ristretto255
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO, TWO = BigInteger.valueOf(2);
  static final BigInteger P = ONE.shiftLeft(255).subtract(BigInteger.valueOf(19));
  static final BigInteger D = new BigInteger("37095705934669439343138083508754565189542113879843219016388785533085940283555");
  static final BigInteger SQRT_M1 = new BigInteger("19681161376707505956807079304988542015446066515923890162744021073123829784752");
  static final BigInteger SQRT_AD_MINUS_ONE = new BigInteger("25063068953384623474111414158702152701244531502492656460079210482610430750235");
  static final BigInteger INVSQRT_A_MINUS_D = new BigInteger("54469307008909316920995813868745141605393597292927456921205312896311721017578");
  static final BigInteger ONE_MINUS_D_SQ = ONE.subtract(D.multiply(D)).mod(P);
  static final BigInteger D_MINUS_ONE_SQ = D.subtract(ONE).multiply(D.subtract(ONE)).mod(P);
  static final BigInteger E58 = P.subtract(BigInteger.valueOf(5)).shiftRight(3);
  static BigInteger m(BigInteger a, BigInteger b) { return a.multiply(b).mod(P); }
  static boolean neg(BigInteger x) { return x.testBit(0); }
  static BigInteger abs(BigInteger x) { return neg(x) ? P.subtract(x).mod(P) : x; }
  static final class Sq { boolean ok; BigInteger r; }
  static Sq sqrtRatio(BigInteger u, BigInteger v) {
    BigInteger v3 = m(m(v, v), v), v7 = m(m(v3, v3), v);
    BigInteger r = m(m(u, v3), m(u, v7).modPow(E58, P));
    BigInteger c = m(v, m(r, r));
    BigInteger nu = P.subtract(u).mod(P), nui = m(nu, SQRT_M1);
    boolean correct = c.equals(u), flip = c.equals(nu), flipi = c.equals(nui);
    if (flip || flipi) r = m(r, SQRT_M1);
    Sq s = new Sq(); s.ok = correct || flip; s.r = abs(r); return s;
  }
  static final class Pt { BigInteger x, y, z, t; Pt(BigInteger x, BigInteger y, BigInteger z, BigInteger t) { this.x = x; this.y = y; this.z = z; this.t = t; } }
  static final Pt ID = new Pt(ZERO, ONE, ONE, ZERO);
  static Pt add(Pt p, Pt q) {
    BigInteger A = m(p.y.subtract(p.x), q.y.subtract(q.x)), Bb = m(p.y.add(p.x), q.y.add(q.x));
    BigInteger C = m(m(p.t, TWO), m(D, q.t)), Dd = m(m(p.z, TWO), q.z);
    BigInteger E = Bb.subtract(A), F = Dd.subtract(C), G = Dd.add(C), H = Bb.add(A);
    return new Pt(m(E, F), m(G, H), m(F, G), m(E, H));
  }
  static Pt dbl(Pt p) {
    BigInteger A = m(p.x, p.x), Bb = m(p.y, p.y), C = m(TWO, m(p.z, p.z));
    BigInteger H = A.add(Bb), xy = p.x.add(p.y), E = H.subtract(m(xy, xy)), G = A.subtract(Bb), F = C.add(G);
    return new Pt(m(E, F), m(G, H), m(F, G), m(E, H));
  }
  static Pt mul(BigInteger n, Pt p) {
    Pt[] tb = new Pt[16]; tb[0] = ID;
    for (int i = 1; i < 16; i++) tb[i] = add(tb[i - 1], p);
    Pt r = ID; int nib = (n.bitLength() + 3) / 4;
    for (int i = nib - 1; i >= 0; i--) {
      r = dbl(dbl(dbl(dbl(r))));
      int w = (n.testBit(4 * i) ? 1 : 0) | (n.testBit(4 * i + 1) ? 2 : 0) | (n.testBit(4 * i + 2) ? 4 : 0) | (n.testBit(4 * i + 3) ? 8 : 0);
      if (w != 0) r = add(r, tb[w]);
    }
    return r;
  }
  static final ConcurrentHashMap<String, Object> DEC = new ConcurrentHashMap<>();
  static final ConcurrentHashMap<String, String> MUL = new ConcurrentHashMap<>();
  static Pt decode0(byte[] b) {
    if (b.length != 32) return null;
    BigInteger s = le(b);
    if (s.compareTo(P) >= 0 || neg(s)) return null;
    BigInteger ss = m(s, s), u1 = ONE.subtract(ss).mod(P), u2 = ONE.add(ss).mod(P), u22 = m(u2, u2);
    BigInteger v = P.subtract(m(D, m(u1, u1))).subtract(u22).mod(P);
    Sq q = sqrtRatio(ONE, m(v, u22));
    BigInteger dx = m(q.r, u2), dy = m(m(q.r, dx), v);
    BigInteger x = abs(m(m(TWO, s), dx)), y = m(u1, dy), t = m(x, y);
    if (!q.ok || neg(t) || y.signum() == 0) return null;
    return new Pt(x, y, ONE, t);
  }
  static Pt decode(String h) {
    Object o = DEC.get(h);
    if (o == null) { Pt p = decode0(unhex(h)); o = p == null ? Boolean.FALSE : p; if (DEC.size() < 400000) DEC.put(h, o); }
    return o instanceof Pt ? (Pt) o : null;
  }
  static Pt must(Value v) {
    Pt p = decode(str(v));
    if (p == null) throw new IllegalArgumentException("not a group element: " + str(v));
    return p;
  }
  static String encode(Pt p) {
    BigInteger u1 = m(p.z.add(p.y), p.z.subtract(p.y)), u2 = m(p.x, p.y);
    BigInteger inv = sqrtRatio(ONE, m(u1, m(u2, u2))).r;
    BigInteger d1 = m(inv, u1), d2 = m(inv, u2), zinv = m(m(d1, d2), p.t);
    boolean rot = neg(m(p.t, zinv));
    BigInteger x = rot ? m(p.y, SQRT_M1) : p.x, y = rot ? m(p.x, SQRT_M1) : p.y, di = rot ? m(d1, INVSQRT_A_MINUS_D) : d2;
    if (neg(m(x, zinv))) y = P.subtract(y).mod(P);
    return hex(tole(abs(m(di, p.z.subtract(y)))));
  }
  static Pt map(BigInteger t) {
    BigInteger r = m(SQRT_M1, m(t, t)), u = m(r.add(ONE), ONE_MINUS_D_SQ);
    BigInteger v = m(P.subtract(ONE).subtract(m(r, D)), r.add(D));
    Sq q = sqrtRatio(u, v);
    BigInteger s = q.r, c = P.subtract(ONE);
    if (!q.ok) { s = P.subtract(abs(m(s, t))).mod(P); c = r; }
    BigInteger N = m(m(c, r.subtract(ONE)), D_MINUS_ONE_SQ).subtract(v).mod(P);
    BigInteger ss = m(s, s);
    BigInteger w0 = m(m(TWO, s), v), w1 = m(N, SQRT_AD_MINUS_ONE), w2 = ONE.subtract(ss).mod(P), w3 = ONE.add(ss).mod(P);
    return new Pt(m(w0, w3), m(w2, w1), m(w1, w3), m(w0, w2));
  }
  static final Pt BASE = decode0(unhex("e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76"));
  public static Value PValid(Value a) { return B(decode(str(a)) != null); }
  public static Value PAdd(Value a, Value b) { return S(encode(add(must(a), must(b)))); }
  public static Value PMul(Value s, Value a) {
    String k = str(s) + str(a), r = MUL.get(k);
    if (r == null) { r = encode(mul(sc(s).mod(L), must(a))); if (MUL.size() < 400000) MUL.put(k, r); }
    return S(r);
  }
  public static Value PBase(Value s) {
    String k = str(s), r = MUL.get(k);
    if (r == null) { r = encode(mul(sc(s).mod(L), BASE)); if (MUL.size() < 400000) MUL.put(k, r); }
    return S(r);
  }
  public static Value PFromHash(Value h) {
    byte[] b = unhex(str(h)); byte[] b1 = new byte[32], b2 = new byte[32];
    System.arraycopy(b, 0, b1, 0, 32); System.arraycopy(b, 32, b2, 0, 32);
    b1[31] &= 0x7f; b2[31] &= 0x7f;
    return S(encode(add(map(le(b1).mod(P)), map(le(b2).mod(P)))));
  }
}
