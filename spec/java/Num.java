import java.math.BigInteger;
import tlc2.value.impl.*;

/** Speed-up of the public operators of Num.tla; NumTest.tla compares both. */
public class Num {
  static final BigInteger SCALE = BigInteger.TEN.pow(16);
  static final BigInteger BASE = BigInteger.valueOf(10000);
  static final IntValue[] SMALL = new IntValue[10000];
  static { for (int i = 0; i < 10000; i++) SMALL[i] = IntValue.gen(i); }
  static final Value NAN = new TupleValue(new Value[]{IntValue.gen(9)});
  static final Value PINF = new TupleValue(new Value[]{IntValue.gen(8)});
  static final Value NINF = new TupleValue(new Value[]{IntValue.gen(-8)});
  static final Value ZERO = new TupleValue(new Value[]{IntValue.gen(0)});

  static Value[] elems(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a number tuple: " + v);
    return ((TupleValue) t).elems;
  }
  /** 0 finite, 9 NaN, 8/-8 infinities */
  static int kind(Value[] e) {
    int s = ((IntValue) e[0]).val;
    return (s >= -1 && s <= 1) ? 0 : s;
  }
  static BigInteger big(Value[] e) {
    BigInteger r = BigInteger.ZERO;
    if (e.length - 1 <= 4) {
      long l = 0;
      for (int i = e.length - 1; i >= 1; i--) l = l * 10000 + ((IntValue) e[i]).val;
      r = BigInteger.valueOf(l);
    } else {
      int i = e.length - 1;
      while (i >= 1) {
        // take four limbs at a time
        int k = (i % 4 == 0) ? 4 : i % 4;
        long l = 0; long b = 1;
        for (int j = 0; j < k; j++) { l = l * 10000 + ((IntValue) e[i - j]).val; b *= 10000; }
        r = r.multiply(BigInteger.valueOf(b)).add(BigInteger.valueOf(l));
        i -= k;
      }
    }
    return ((IntValue) e[0]).val < 0 ? r.negate() : r;
  }
  static final BigInteger B16 = BigInteger.TEN.pow(16);
  static Value val(BigInteger b) {
    int s = b.signum();
    if (s == 0) return ZERO;
    BigInteger m = b.abs();
    int[] limbs = new int[64]; int n = 0;
    while (m.signum() != 0) {
      BigInteger[] qr = m.divideAndRemainder(B16);
      long l = qr[1].longValue();
      m = qr[0];
      if (n + 4 > limbs.length) limbs = java.util.Arrays.copyOf(limbs, limbs.length * 2);
      for (int j = 0; j < 4; j++) { limbs[n++] = (int) (l % 10000); l /= 10000; }
    }
    while (limbs[n - 1] == 0) n--;
    Value[] out = new Value[n + 1];
    out[0] = IntValue.gen(s);
    for (int i = 0; i < n; i++) out[i + 1] = SMALL[limbs[i]];
    return new TupleValue(out);
  }
  static Value fromDouble(double d) {
    return val(new java.math.BigDecimal(d).multiply(new java.math.BigDecimal(SCALE)).toBigInteger());
  }
  static double dbl(Value[] e) {
    return new java.math.BigDecimal(big(e)).divide(new java.math.BigDecimal(SCALE)).doubleValue();
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value I(Value n) { return val(BigInteger.valueOf(((IntValue) n).val).multiply(SCALE)); }
  public static Value Opp(Value a) {
    Value[] e = elems(a); int k = kind(e);
    if (k == 8) return NINF; if (k == -8) return PINF; if (k != 0) return NAN;
    return val(big(e).negate());
  }
  public static Value Abs(Value a) {
    Value[] e = elems(a); int k = kind(e);
    if (k == 8 || k == -8) return PINF; if (k != 0) return NAN;
    return val(big(e).abs());
  }
  static int cmp(Value[] x, Value[] y) {   // no NaN
    int sx = ((IntValue) x[0]).val, sy = ((IntValue) y[0]).val;
    if (sx != sy) return sx < sy ? -1 : 1;
    if (kind(x) != 0) return 0;
    return big(x).compareTo(big(y));
  }
  public static Value Lt(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (kind(x) == 9 || kind(y) == 9) return bool(false);
    return bool(cmp(x, y) < 0);
  }
  public static Value Le(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (kind(x) == 9 || kind(y) == 9) return bool(false);
    return bool(cmp(x, y) <= 0);
  }
  public static Value Add(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (kind(x) != 0 || kind(y) != 0) return NAN;
    return val(big(x).add(big(y)));
  }
  public static Value Sub(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (kind(x) != 0 || kind(y) != 0) return NAN;
    return val(big(x).subtract(big(y)));
  }
  public static Value Mul(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (kind(x) != 0 || kind(y) != 0) return NAN;
    return val(big(x).multiply(big(y)).divide(SCALE));
  }
  public static Value Div(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    if (kind(x) != 0 || kind(y) != 0) return NAN;
    BigInteger d = big(y);
    if (d.signum() == 0) return NAN;
    return val(big(x).multiply(SCALE).divide(d));
  }
  public static Value Sqrt(Value a) {
    Value[] x = elems(a);
    if (kind(x) != 0) return NAN;
    BigInteger b = big(x);
    if (b.signum() < 0) return NAN;
    return val(b.multiply(SCALE).sqrt());
  }
  public static Value Sin(Value a) { Value[] x = elems(a); return kind(x) != 0 ? NAN : fromDouble(Math.sin(dbl(x))); }
  public static Value Cos(Value a) { Value[] x = elems(a); return kind(x) != 0 ? NAN : fromDouble(Math.cos(dbl(x))); }
  public static Value Exp(Value a) { Value[] x = elems(a); return kind(x) != 0 ? NAN : fromDouble(Math.exp(dbl(x))); }
  public static Value SumSeq(Value s) {
    BigInteger r = BigInteger.ZERO;
    for (Value v : elems(s)) { Value[] e = elems(v); if (kind(e) != 0) return NAN; r = r.add(big(e)); }
    return val(r);
  }
}
