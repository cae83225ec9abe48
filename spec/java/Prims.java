// TLC operator overrides for module Prims (see spec/Prims.tla).
//
// These are the cryptographic and textual primitives the specification treats
// as given; they are implemented here independently of the code under test
// (java.security for SHA-256 / HMAC, BigInteger arithmetic for the curve).
import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.ArrayList;
import java.util.Arrays;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.*;
import util.UniqueString;

public class Prims {

  // ---------------------------------------------------------------- helpers
  private static byte[] bytes(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("byte sequence expected: " + v);
    byte[] r = new byte[t.elems.length];
    for (int i = 0; i < r.length; i++) {
      int x = ((IntValue) t.elems[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
      r[i] = (byte) x;
    }
    return r;
  }
  private static final IntValue[] B = new IntValue[256];
  static { for (int i = 0; i < 256; i++) B[i] = IntValue.gen(i); }
  private static Value seq(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = B[b[i] & 0xff];
    return new TupleValue(e);
  }
  private static byte[] sha(byte[] b) {
    try { return MessageDigest.getInstance("SHA-256").digest(b); }
    catch (Exception e) { throw new RuntimeException(e); }
  }
  private static String str(Value v) { return ((StringValue) v).val.toString(); }
  private static String hex(byte[] b) {
    StringBuilder s = new StringBuilder(2 * b.length);
    for (byte x : b) { s.append(Character.forDigit((x >> 4) & 15, 16)); s.append(Character.forDigit(x & 15, 16)); }
    return s.toString();
  }
  private static Value tup(Value... v) { return new TupleValue(v); }

  // ------------------------------------------------------------------- text
  public static Value Hex2B(Value v) {
    String s = str(v);
    if (s.length() % 2 != 0) throw new RuntimeException("odd hex: " + s);
    Value[] e = new Value[s.length() / 2];
    for (int i = 0; i < e.length; i++) {
      int h = Character.digit(s.charAt(2 * i), 16), l = Character.digit(s.charAt(2 * i + 1), 16);
      if (h < 0 || l < 0) throw new RuntimeException("bad hex: " + s);
      e[i] = B[h * 16 + l];
    }
    return new TupleValue(e);
  }
  public static Value IsHex(Value v) {
    if (!(v instanceof StringValue)) return BoolValue.ValFalse;
    String s = str(v);
    if (s.length() % 2 != 0) return BoolValue.ValFalse;
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'))) return BoolValue.ValFalse;
    }
    return BoolValue.ValTrue;
  }
  public static Value B2Hex(Value v) { return new StringValue(hex(bytes(v))); }
  // characters of a string as their code points
  public static Value Chars(Value v) {
    String s = str(v);
    Value[] e = new Value[s.length()];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(s.charAt(i));
    return new TupleValue(e);
  }
  public static Value FromChars(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    StringBuilder s = new StringBuilder();
    for (Value x : t.elems) s.append((char) ((IntValue) x).val);
    return new StringValue(s.toString());
  }
  public static Value Cat(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    ArrayList<Value> out = new ArrayList<>();
    for (Value x : t.elems) {
      TupleValue u = (TupleValue) x.toTuple();
      out.addAll(Arrays.asList(u.elems));
    }
    return new TupleValue(out.toArray(new Value[0]));
  }

  // ------------------------------------------------------------------ hashes
  public static Value Sha256(Value v) { return seq(sha(bytes(v))); }
  public static Value HmacSha256(Value k, Value m) {
    try {
      byte[] kb = bytes(k);
      // SecretKeySpec refuses an empty key; an empty HMAC key equals a zero block
      if (kb.length == 0) kb = new byte[1];
      Mac mac = Mac.getInstance("HmacSHA256");
      mac.init(new SecretKeySpec(kb, "HmacSHA256"));
      return seq(mac.doFinal(bytes(m)));
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  private static final int[] K = {
    0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
    0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
    0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
    0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
    0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
    0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
    0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
    0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
  // SHA-256 compression of one 64-byte block from the initial state
  public static Value Sha256Midstate(Value v) {
    byte[] b = bytes(v);
    if (b.length != 64) throw new RuntimeException("midstate needs 64 bytes");
    int[] w = new int[64];
    for (int i = 0; i < 16; i++)
      w[i] = ((b[4*i] & 255) << 24) | ((b[4*i+1] & 255) << 16) | ((b[4*i+2] & 255) << 8) | (b[4*i+3] & 255);
    for (int i = 16; i < 64; i++) {
      int s0 = Integer.rotateRight(w[i-15],7) ^ Integer.rotateRight(w[i-15],18) ^ (w[i-15] >>> 3);
      int s1 = Integer.rotateRight(w[i-2],17) ^ Integer.rotateRight(w[i-2],19) ^ (w[i-2] >>> 10);
      w[i] = w[i-16] + s0 + w[i-7] + s1;
    }
    int[] h = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    int a=h[0],bb=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],hh=h[7];
    for (int i = 0; i < 64; i++) {
      int S1 = Integer.rotateRight(e,6) ^ Integer.rotateRight(e,11) ^ Integer.rotateRight(e,25);
      int ch = (e & f) ^ (~e & g);
      int t1 = hh + S1 + ch + K[i] + w[i];
      int S0 = Integer.rotateRight(a,2) ^ Integer.rotateRight(a,13) ^ Integer.rotateRight(a,22);
      int mj = (a & bb) ^ (a & c) ^ (bb & c);
      int t2 = S0 + mj;
      hh=g; g=f; f=e; e=d+t1; d=c; c=bb; bb=a; a=t1+t2;
    }
    int[] r = {h[0]+a,h[1]+bb,h[2]+c,h[3]+d,h[4]+e,h[5]+f,h[6]+g,h[7]+hh};
    byte[] o = new byte[32];
    for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) o[4*i+j] = (byte) (r[i] >>> (24 - 8*j));
    return seq(o);
  }

  // ------------------------------------------------------------- arithmetic
  static final BigInteger P = new BigInteger("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16);
  static final BigInteger N = new BigInteger("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16);
  static final BigInteger GX = new BigInteger("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16);
  static final BigInteger GY = new BigInteger("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16);
  private static BigInteger num(Value v) { return new BigInteger(1, bytes(v)); }
  private static Value be(BigInteger x, int n) {
    byte[] r = new byte[n], b = x.toByteArray();
    for (int i = 0; i < n && i < b.length; i++) r[n-1-i] = b[b.length-1-i];
    return seq(r);
  }
  // scalars modulo the group order, 32 bytes big endian
  public static Value ScAdd(Value a, Value b) { return be(num(a).add(num(b)).mod(N), 32); }
  public static Value ScSub(Value a, Value b) { return be(num(a).subtract(num(b)).mod(N), 32); }
  public static Value ScMul(Value a, Value b) { return be(num(a).multiply(num(b)).mod(N), 32); }
  // unsigned comparison / ordering of big-endian numbers
  public static Value NumLT(Value a, Value b) { return num(a).compareTo(num(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value IsScalar(Value a) {
    BigInteger x = num(a);
    return x.signum() > 0 && x.compareTo(N) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value NumAdd(Value a, Value b) {
    int n = Math.max(bytes(a).length, bytes(b).length);
    return be(num(a).add(num(b)), n);
  }

  // ------------------------------------------------------------------ curve
  private static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
    if (p == null) return q;
    if (q == null) return p;
    BigInteger l;
    if (p[0].equals(q[0])) {
      if (!p[1].equals(q[1]) || p[1].signum() == 0) return null;
      l = p[0].multiply(p[0]).multiply(BigInteger.valueOf(3)).multiply(p[1].shiftLeft(1).modInverse(P)).mod(P);
    } else {
      l = q[1].subtract(p[1]).multiply(q[0].subtract(p[0]).mod(P).modInverse(P)).mod(P);
    }
    BigInteger x = l.multiply(l).subtract(p[0]).subtract(q[0]).mod(P);
    BigInteger y = l.multiply(p[0].subtract(x)).subtract(p[1]).mod(P);
    return new BigInteger[]{x, y};
  }
  private static BigInteger[] mul(BigInteger k, BigInteger[] p) {
    BigInteger[] r = null;
    for (int i = k.bitLength() - 1; i >= 0; i--) {
      r = add(r, r);
      if (k.testBit(i)) r = add(r, p);
    }
    return r;
  }
  private static BigInteger[] lift(BigInteger x, int odd) {
    if (x.compareTo(P) >= 0) return null;
    BigInteger c = x.modPow(BigInteger.valueOf(3), P).add(BigInteger.valueOf(7)).mod(P);
    BigInteger y = c.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
    if (!y.multiply(y).mod(P).equals(c)) return null;
    if (y.testBit(0) != (odd == 1)) y = P.subtract(y);
    return new BigInteger[]{x, y};
  }
  private static BigInteger[] parse(byte[] b) {
    if (b.length == 33 && (b[0] == 2 || b[0] == 3))
      return lift(new BigInteger(1, Arrays.copyOfRange(b, 1, 33)), b[0] & 1);
    if (b.length == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7)) {
      BigInteger x = new BigInteger(1, Arrays.copyOfRange(b, 1, 33)), y = new BigInteger(1, Arrays.copyOfRange(b, 33, 65));
      if (x.compareTo(P) >= 0 || y.compareTo(P) >= 0) return null;
      if (b[0] != 4 && (y.testBit(0) != (b[0] == 7))) return null;
      if (!y.multiply(y).mod(P).equals(x.pow(3).add(BigInteger.valueOf(7)).mod(P))) return null;
      return new BigInteger[]{x, y};
    }
    return null;
  }
  private static byte[] ser(BigInteger[] p) {
    byte[] r = new byte[33], x = p[0].toByteArray();
    r[0] = (byte) (p[1].testBit(0) ? 3 : 2);
    for (int i = 0; i < 32 && i < x.length; i++) r[32-i] = x[x.length-1-i];
    return r;
  }
  // is this the encoding of a curve point (33 or 65 bytes)?
  public static Value IsPoint(Value v) { return parse(bytes(v)) != null ? BoolValue.ValTrue : BoolValue.ValFalse; }
  // compressed public key of a 32-byte secret, <<>> if the secret is invalid
  public static Value PubOf(Value k) {
    BigInteger x = num(k);
    if (x.signum() == 0 || x.compareTo(N) >= 0) return seq(new byte[0]);
    return seq(ser(mul(x, new BigInteger[]{GX, GY})));
  }
  // libsecp256k1 ECDH: SHA256 of the compressed shared point, <<>> on bad input
  public static Value Ecdh(Value k, Value pub) {
    BigInteger x = num(k); BigInteger[] p = parse(bytes(pub));
    if (p == null || x.signum() == 0 || x.compareTo(N) >= 0) return seq(new byte[0]);
    return seq(sha(ser(mul(x, p))));
  }
  // BIP341 tweak of an x-only key: <<parity>> \o 32 bytes, or <<>> if undefined
  public static Value XOnlyTweakAdd(Value pub, Value tweak) {
    BigInteger[] p = lift(num(pub), 0); BigInteger t = num(tweak);
    if (p == null || t.compareTo(N) >= 0) return seq(new byte[0]);
    BigInteger[] q = add(p, t.signum() == 0 ? null : mul(t, new BigInteger[]{GX, GY}));
    if (q == null) return seq(new byte[0]);
    byte[] r = ser(q);
    r[0] -= 2;
    return seq(r);
  }
}
