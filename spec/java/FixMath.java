// Wide-integer evaluation of the operators of FixMath.tla (see there for their meaning).
import java.math.BigInteger;
import tlc2.value.impl.*;

public class FixMath {
  static final long BIG = 1000000000L;
  static Value gen(long x) { return IntValue.gen((int) (x > BIG ? BIG : x < -BIG ? -BIG : x)); }
  static Value gen(BigInteger x) {
    if (x.bitLength() > 62) return gen(x.signum() > 0 ? BIG : -BIG);
    return gen(x.longValue());
  }
  static long i(Value v) { return ((IntValue) v).val; }
  static Value[] seq(Value v) {
    Value t = (Value) v.toTuple();
    if (t == null) throw new RuntimeException("FixMath: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  // functions over 1..n are evaluated once, not at every application
  public static Value Strict(Value v) {
    if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue || v instanceof TupleValue) {
      Value t = (Value) v.toTuple();
      if (t == null) return v;
      Value[] e = ((TupleValue) t).elems;
      for (int k = 0; k < e.length; k++) e[k] = Strict(e[k]);
      return t;
    }
    return v;
  }
  public static Value MulDiv(Value a, Value b, Value c) { return gen(Math.floorDiv(i(a) * i(b), i(c))); }
  public static Value Sum(Value u) { long s = 0; for (Value v : seq(u)) s += i(v); return gen(s); }
  static BigInteger dot(Value u, Value v) {
    Value[] a = seq(u), b = seq(v);
    long s = 0; BigInteger hi = BigInteger.ZERO;
    for (int k = 0; k < a.length; k++) {
      s += i(a[k]) * i(b[k]);
      if (Math.abs(s) > (1L << 61)) { hi = hi.add(BigInteger.valueOf(s)); s = 0; }
    }
    return hi.add(BigInteger.valueOf(s));
  }
  static BigInteger floorDiv(BigInteger x, BigInteger c) {
    BigInteger[] qr = x.divideAndRemainder(c);
    return (qr[1].signum() != 0 && (qr[1].signum() != c.signum())) ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }
  public static Value Dot(Value u, Value v, Value c) { return gen(floorDiv(dot(u, v), BigInteger.valueOf(i(c)))); }
  public static Value Ratio(Value u, Value v, Value a, Value b, Value s) {
    BigInteger d = dot(a, b);
    if (d.signum() == 0) return gen(0);
    return gen(floorDiv(dot(u, v).multiply(BigInteger.valueOf(i(s))), d));
  }
  public static Value ISqrt(Value n) { return gen(BigInteger.valueOf(i(n)).sqrt()); }
  public static Value Norm2(Value u) { return gen(dot(u, u).sqrt()); }
  public static Value SqrtFix(Value x, Value s) { return gen(BigInteger.valueOf(i(x) * i(s)).sqrt()); }
  public static Value CmpProd(Value a, Value b, Value c, Value d) {
    return IntValue.gen(Long.compare(i(a) * i(b), i(c) * i(d)));
  }
  public static Value ExpFix(Value x, Value s) {
    double r = Math.rint(i(s) * Math.exp((double) i(x) / i(s)));
    return gen(r > BIG ? BIG : (long) r);
  }
  public static Value LnFix(Value x, Value s) { return gen((long) Math.rint(i(s) * Math.log((double) i(x) / i(s)))); }
}
