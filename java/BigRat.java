// TLC module override for BigRat.tla: exact rational arithmetic on canonical numerals.
// A rational is the TLC string "n" or "n/d" (d > 1, gcd(n,d) = 1); every other string ("nan",
// "inf", "-inf", ...) is "not a number": arithmetic propagates "nan", comparisons are FALSE.
// The meaning of each operator is the mathematical one stated in BigRat.tla; MC_BigRat.tla checks the
// overrides against TLC's own integers on a complete small range.
import tlc2.value.impl.*;
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;

public class BigRat {
  static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.TWO;

  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }
  static final ConcurrentHashMap<String, Q> cache = new ConcurrentHashMap<>();
  static final Q NAN = new Q(ZERO, ZERO);

  static Q norm(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return NAN;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (!d.equals(ONE)) {
      BigInteger g = n.gcd(d);
      if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    return new Q(n, d);
  }

  static Q parse(String s) {
    Q q = cache.get(s);
    if (q != null) return q;
    try {
      int k = s.indexOf('/');
      if (k < 0) q = new Q(new BigInteger(s), ONE);
      else q = norm(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
    } catch (NumberFormatException e) {
      q = NAN;
    }
    if (cache.size() > 400000) cache.clear();
    cache.put(s, q);
    return q;
  }

  static Q q(Value v) {
    if (v instanceof StringValue) return parse(((StringValue) v).getVal().toString());
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
    return NAN;
  }

  static StringValue out(Q a) {
    if (a.d.signum() == 0) return new StringValue("nan");
    String s = a.d.equals(ONE) ? a.n.toString() : a.n.toString() + "/" + a.d.toString();
    if (cache.size() > 400000) cache.clear();
    cache.put(s, a);
    return new StringValue(s);
  }
  static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static boolean nan(Q a) { return a.d.signum() == 0; }

  static Q add(Q a, Q b) {
    if (nan(a) || nan(b)) return NAN;
    if (a.d.equals(b.d)) return norm(a.n.add(b.n), a.d);
    return norm(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
  static Q sub(Q a, Q b) { return add(a, neg(b)); }
  static Q mul(Q a, Q b) {
    if (nan(a) || nan(b)) return NAN;
    return norm(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  static Q div(Q a, Q b) {
    if (nan(a) || nan(b) || b.n.signum() == 0) return NAN;
    return norm(a.n.multiply(b.d), a.d.multiply(b.n));
  }
  static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }

  // ---- scalar operators
  public static Value RAdd(Value a, Value b) { return out(add(q(a), q(b))); }
  public static Value RSub(Value a, Value b) { return out(sub(q(a), q(b))); }
  public static Value RMul(Value a, Value b) { return out(mul(q(a), q(b))); }
  public static Value RDiv(Value a, Value b) { return out(div(q(a), q(b))); }
  public static Value RNeg(Value a) { return out(neg(q(a))); }
  public static Value RAbs(Value a) { Q x = q(a); return out(new Q(x.n.abs(), x.d)); }
  public static Value RNum(Value a) { return out(q(a)); }
  public static Value RIsNum(Value a) { return bool(!nan(q(a))); }
  public static Value RSgn(Value a) { return IntValue.gen(q(a).n.signum()); }
  public static Value REq(Value a, Value b) { Q x = q(a), y = q(b); return bool(!nan(x) && !nan(y) && cmp(x, y) == 0); }
  public static Value RLt(Value a, Value b) { Q x = q(a), y = q(b); return bool(!nan(x) && !nan(y) && cmp(x, y) < 0); }
  public static Value RLe(Value a, Value b) { Q x = q(a), y = q(b); return bool(!nan(x) && !nan(y) && cmp(x, y) <= 0); }
  public static Value RMin(Value a, Value b) { Q x = q(a), y = q(b); return nan(x) || nan(y) ? out(NAN) : out(cmp(x, y) <= 0 ? x : y); }
  public static Value RMax(Value a, Value b) { Q x = q(a), y = q(b); return nan(x) || nan(y) ? out(NAN) : out(cmp(x, y) >= 0 ? x : y); }
  public static Value RIsInt(Value a) { return bool(q(a).d.equals(ONE)); }
  static BigInteger floor(Q x) {
    BigInteger[] r = x.n.divideAndRemainder(x.d);
    return r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
  }
  public static Value RFloor(Value a) { Q x = q(a); return nan(x) ? out(NAN) : out(new Q(floor(x), ONE)); }
  // TLC integer of an integral numeral within 32 bits, otherwise the given default
  public static Value RToInt(Value a, Value dflt) {
    Q x = q(a);
    if (!x.d.equals(ONE) || x.n.bitLength() > 30) return dflt;
    return IntValue.gen(x.n.intValue());
  }
  // largest multiple of 2^-bits that is <= a
  static Q rnd(Q x, int bits) {
    if (nan(x)) return NAN;
    BigInteger s = ONE.shiftLeft(bits);
    return norm(floor(new Q(x.n.multiply(s), x.d)), s);
  }
  public static Value RRound(Value a, Value bits) { return out(rnd(q(a), ((IntValue) bits).val)); }
  static Q sqrt(Q x, int bits) {
    if (nan(x) || x.n.signum() < 0) return NAN;
    BigInteger s = ONE.shiftLeft(2 * bits);
    return norm(floor(new Q(x.n.multiply(s), x.d)).sqrt(), ONE.shiftLeft(bits));
  }
  // largest multiple of 2^-bits whose square is <= a
  public static Value RSqrt(Value a, Value bits) { return out(sqrt(q(a), ((IntValue) bits).val)); }
  // |a-b| <= atol + rtol*|b|
  public static Value RNear(Value a, Value b, Value atol, Value rtol) {
    Q x = q(a), y = q(b), t = q(atol), r = q(rtol);
    if (nan(x) || nan(y)) return bool(false);
    Q df = sub(x, y);
    Q lim = add(t, mul(r, new Q(y.n.abs(), y.d)));
    return bool(cmp(new Q(df.n.abs(), df.d), lim) <= 0);
  }

  // ---- sequences of rationals
  static Q[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    Q[] r = new Q[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = q(t.elems[i]);
    return r;
  }
  static Value tup(Q[] a) {
    Value[] r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = out(a[i]);
    return new TupleValue(r);
  }
  public static Value RSum(Value s) { Q r = new Q(ZERO, ONE); for (Q x : seq(s)) r = add(r, x); return out(r); }
  public static Value RDot(Value s, Value t) {
    Q[] a = seq(s), b = seq(t);
    if (a.length != b.length) return out(NAN);
    Q r = new Q(ZERO, ONE);
    for (int i = 0; i < a.length; i++) r = add(r, mul(a[i], b[i]));
    return out(r);
  }
  public static Value RVAdd(Value s, Value t) {
    Q[] a = seq(s), b = seq(t); Q[] r = new Q[a.length];
    for (int i = 0; i < a.length; i++) r[i] = i < b.length ? add(a[i], b[i]) : NAN;
    return tup(r);
  }
  public static Value RVSub(Value s, Value t) {
    Q[] a = seq(s), b = seq(t); Q[] r = new Q[a.length];
    for (int i = 0; i < a.length; i++) r[i] = i < b.length ? sub(a[i], b[i]) : NAN;
    return tup(r);
  }
  public static Value RVScale(Value c, Value s) {
    Q k = q(c); Q[] a = seq(s); Q[] r = new Q[a.length];
    for (int i = 0; i < a.length; i++) r[i] = mul(k, a[i]);
    return tup(r);
  }
  public static Value RVRound(Value s, Value bits) {
    Q[] a = seq(s); Q[] r = new Q[a.length]; int k = ((IntValue) bits).val;
    for (int i = 0; i < a.length; i++) r[i] = rnd(a[i], k);
    return tup(r);
  }
  public static Value RCross(Value s, Value t) {
    Q[] a = seq(s), b = seq(t);
    Q[] r = new Q[3];
    for (int i = 0; i < 3; i++) {
      int j = (i + 1) % 3, k = (i + 2) % 3;
      r[i] = sub(mul(a[j], b[k]), mul(a[k], b[j]));
    }
    return tup(r);
  }
  public static Value RDist2(Value s, Value t) {
    Q[] a = seq(s), b = seq(t);
    if (a.length != b.length) return out(NAN);
    Q r = new Q(ZERO, ONE);
    for (int i = 0; i < a.length; i++) { Q d = sub(a[i], b[i]); r = add(r, mul(d, d)); }
    return out(r);
  }
  public static Value RVNear(Value s, Value t, Value atol, Value rtol) {
    TupleValue a = (TupleValue) s.toTuple(), b = (TupleValue) t.toTuple();
    if (a == null || b == null || a.elems.length != b.elems.length) return bool(false);
    for (int i = 0; i < a.elems.length; i++)
      if (RNear(a.elems[i], b.elems[i], atol, rtol) == BoolValue.ValFalse) return bool(false);
    return bool(true);
  }
  // y[i] = sum over triplets <<i,j,v>> (0-based) of v*x[j], for i in 0..n-1
  public static Value RSpMV(Value trip, Value n, Value x) {
    TupleValue t = (TupleValue) trip.toTuple();
    Q[] xs = seq(x);
    Q[] y = new Q[((IntValue) n).val];
    for (int i = 0; i < y.length; i++) y[i] = new Q(ZERO, ONE);
    for (Value e : t.elems) {
      TupleValue te = (TupleValue) e.toTuple();
      int i = ((IntValue) te.elems[0]).val, j = ((IntValue) te.elems[1]).val;
      if (i < 0 || i >= y.length || j < 0 || j >= xs.length) { if (i >= 0 && i < y.length) y[i] = NAN; continue; }
      y[i] = add(y[i], mul(q(te.elems[2]), xs[j]));
    }
    return tup(y);
  }

  // ---- transcendental functions, to within 2^-bits (series with exact rationals, rounded each step)
  static Q lit(long a) { return new Q(BigInteger.valueOf(a), ONE); }
  static Q pi(int bits) { // Machin
    int b = bits + 16;
    return rnd(sub(mul(lit(16), atanInv(5, b)), mul(lit(4), atanInv(239, b))), bits + 4);
  }
  static Q atanInv(long k, int b) {
    BigInteger s = ONE.shiftLeft(b), kk = BigInteger.valueOf(k * k), term = s.divide(BigInteger.valueOf(k)), sum = ZERO;
    for (int i = 0; term.signum() != 0; i++) {
      BigInteger x = term.divide(BigInteger.valueOf(2 * i + 1));
      sum = (i % 2 == 0) ? sum.add(x) : sum.subtract(x);
      term = term.divide(kk);
    }
    return norm(sum, s);
  }
  static Q[] cossin(Q x, int bits) {
    int b = bits + 24;
    Q twopi = mul(lit(2), pi(b + 8 + Math.max(0, x.n.bitLength() - x.d.bitLength())));
    Q k = new Q(floor(div(x, twopi)), ONE);
    x = rnd(sub(x, mul(k, twopi)), b);
    Q x2 = rnd(mul(x, x), b), c = lit(1), s = x, tc = lit(1), ts = x;
    for (int i = 1; i < 200; i++) {
      tc = rnd(neg(div(mul(tc, x2), lit((2L * i - 1) * (2L * i)))), b);
      ts = rnd(neg(div(mul(ts, x2), lit((2L * i) * (2L * i + 1)))), b);
      c = add(c, tc); s = add(s, ts);
      if (tc.n.abs().compareTo(ONE) <= 0 && ts.n.abs().compareTo(ONE) <= 0 && i > 20) break;
    }
    return new Q[] {rnd(c, bits + 2), rnd(s, bits + 2)};
  }
  public static Value RPi(Value bits) { return out(pi(((IntValue) bits).val)); }
  public static Value RCos(Value a, Value bits) { Q x = q(a); return nan(x) ? out(NAN) : out(cossin(x, ((IntValue) bits).val)[0]); }
  public static Value RSin(Value a, Value bits) { Q x = q(a); return nan(x) ? out(NAN) : out(cossin(x, ((IntValue) bits).val)[1]); }
  // angle of (x, y) in (-pi, pi]: one corrected step from the double value
  public static Value RAtan2(Value yv, Value xv, Value bits) {
    Q y = q(yv), x = q(xv); int k = ((IntValue) bits).val;
    if (nan(x) || nan(y) || (x.n.signum() == 0 && y.n.signum() == 0)) return out(NAN);
    Q m = cmp(x.n.signum() < 0 ? neg(x) : x, y.n.signum() < 0 ? neg(y) : y) < 0 ? y : x;
    if (m.n.signum() < 0) m = neg(m);
    x = div(x, m); y = div(y, m);
    Q t = dbl(Math.atan2(approx(y), approx(x)));
    for (int it = 0; it < 3; it++) {
      Q[] cs = cossin(t, k + 60);
      Q d = rnd(div(sub(mul(y, cs[0]), mul(x, cs[1])), add(mul(x, cs[0]), mul(y, cs[1]))), k + 60);
      t = rnd(add(t, sub(d, div(mul(d, mul(d, d)), lit(3)))), k + 30);
    }
    return out(rnd(t, k + 2));
  }
  static double approx(Q a) { return new java.math.BigDecimal(a.n).divide(new java.math.BigDecimal(a.d), new java.math.MathContext(25)).doubleValue(); }
  static Q dbl(double d) { return rnd(new Q(new java.math.BigDecimal(d).unscaledValue(), BigInteger.TEN.pow(Math.max(0, new java.math.BigDecimal(d).scale()))), 60); }
  // exp by argument halving and Taylor series; relative error about 2^-bits for |a| < 64
  static Q exp(Q x, int bits) {
    if (nan(x)) return NAN;
    if (cmp(x, lit(200)) > 0) return NAN;
    boolean ng = x.n.signum() < 0;
    if (ng) x = neg(x);
    if (ng && cmp(x, lit(2000)) > 0) return lit(0);
    int h = Math.max(0, x.n.bitLength() - x.d.bitLength() + 4);
    int b = bits + 2 * h + 40 + (ng ? 0 : 0) + (int) Math.min(600, 2 * floor(x).intValue());
    x = rnd(div(x, new Q(ONE.shiftLeft(h), ONE)), b);
    Q t = lit(1), s = lit(1);
    for (int i = 1; i < 400; i++) {
      t = rnd(div(mul(t, x), lit(i)), b);
      if (t.n.signum() == 0) break;
      s = add(s, t);
    }
    for (int i = 0; i < h; i++) s = rnd(mul(s, s), b);
    return ng ? div(lit(1), s) : s;
  }
  public static Value RExp(Value a, Value bits) { Q r = exp(q(a), ((IntValue) bits).val); return nan(r) ? out(NAN) : out(rnd(r, ((IntValue) bits).val + 8)); }
}
