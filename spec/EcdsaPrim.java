import java.math.BigInteger;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.*;

/** Evaluates the operators of EcdsaPrim.tla. */
public class EcdsaPrim {
  static byte[] oct(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    byte[] b = new byte[t.size()];
    for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
    return b;
  }
  static Value val(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = IntValue.gen(b[i] & 255);
    return new TupleValue(e);
  }
  static BigInteger num(Value v) { return new BigInteger(1, oct(v)); }
  static Value fix(BigInteger n, int len) {
    byte[] r = new byte[len];
    byte[] b = n.toByteArray();
    for (int i = 0; i < b.length && i < len; i++) r[len - 1 - i] = b[b.length - 1 - i];
    return val(r);
  }
  static String str(Value v) { return ((StringValue) v).val.toString(); }

  static class Curve { BigInteger p, a, n, gx, gy; int pl, nl; }
  static BigInteger h(String s) { return new BigInteger(s, 16); }
  static Curve mk(String p, String n, String gx, String gy) {
    Curve c = new Curve();
    c.p = h(p); c.n = h(n); c.gx = h(gx); c.gy = h(gy);
    c.a = BigInteger.valueOf(-3).mod(c.p);
    c.pl = (c.p.bitLength() + 7) / 8; c.nl = (c.n.bitLength() + 7) / 8;
    return c;
  }
  static final Curve P256 = mk("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
      "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
      "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
      "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5");
  static final Curve P384 = mk("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff",
      "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
      "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
      "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f");
  static final Curve P521 = mk("01" + "ff".repeat(65),
      "01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409",
      "00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66",
      "011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650");
  static Curve curve(Value v) {
    switch (str(v)) {
      case "P-256": return P256;
      case "P-384": return P384;
      case "P-521": return P521;
    }
    throw new RuntimeException("curve");
  }

  public static Value POrder(Value c) { Curve k = curve(c); return fix(k.n, k.nl); }
  public static Value PHLen(Value a) {
    switch (str(a)) {
      case "SHA1": return IntValue.gen(20);
      case "SHA224": return IntValue.gen(28);
      case "SHA256": return IntValue.gen(32);
      case "SHA384": return IntValue.gen(48);
      default: return IntValue.gen(64);
    }
  }
  public static Value PHmac(Value a, Value k, Value d) {
    try {
      Mac m = Mac.getInstance("Hmac" + str(a));
      m.init(new SecretKeySpec(oct(k), "x"));
      return val(m.doFinal(oct(d)));
    } catch (java.security.GeneralSecurityException e) {
      throw new RuntimeException(e);
    }
  }
  public static Value PAddMod(Value a, Value b, Value q) { BigInteger n = num(q); return fix(num(a).add(num(b)).mod(n), oct(q).length); }
  public static Value PMulMod(Value a, Value b, Value q) { BigInteger n = num(q); return fix(num(a).multiply(num(b)).mod(n), oct(q).length); }
  public static Value PInvMod(Value a, Value q) { BigInteger n = num(q); return fix(num(a).modInverse(n), oct(q).length); }

  static BigInteger[] add(Curve c, BigInteger[] x, BigInteger[] y) {
    if (x == null) return y;
    if (y == null) return x;
    BigInteger l;
    if (x[0].equals(y[0])) {
      if (x[1].add(y[1]).mod(c.p).signum() == 0) return null;
      l = x[0].pow(2).multiply(BigInteger.valueOf(3)).add(c.a).multiply(x[1].shiftLeft(1).modInverse(c.p)).mod(c.p);
    } else {
      l = y[1].subtract(x[1]).multiply(y[0].subtract(x[0]).modInverse(c.p)).mod(c.p);
    }
    BigInteger r = l.pow(2).subtract(x[0]).subtract(y[0]).mod(c.p);
    return new BigInteger[] {r, l.multiply(x[0].subtract(r)).subtract(x[1]).mod(c.p)};
  }
  public static Value PBaseX(Value cv, Value kv) {
    Curve c = curve(cv);
    BigInteger k = num(kv);
    BigInteger[] acc = null, b = {c.gx, c.gy};
    for (int i = k.bitLength() - 1; i >= 0; i--) {
      acc = add(c, acc, acc);
      if (k.testBit(i)) acc = add(c, acc, b);
    }
    return fix(acc[0], c.pl);
  }
}
