// TLC operator overrides for spec/Rat.tla: exact rational arithmetic on strings.
// A number is "n" or "n/d" (canonical: d > 1, gcd 1), or one of "nan", "inf", "-inf".
import java.math.BigInteger;
import java.math.BigDecimal;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public final class Rat {
  static final BigInteger Z = BigInteger.ZERO, O = BigInteger.ONE;
  // kind: 0 number, 1 nan, 2 +inf, 3 -inf
  static final class R {
    final BigInteger n, d; final int k;
    R(BigInteger n, BigInteger d, int k) { this.n = n; this.d = d; this.k = k; }
    boolean num() { return k == 0; }
    int sgn() { return k == 2 ? 1 : k == 3 ? -1 : n.signum(); }
  }
  static final R NAN = new R(Z, O, 1), PINF = new R(Z, O, 2), NINF = new R(Z, O, 3), ZERO = new R(Z, O, 0);
  static final ConcurrentHashMap<String, R> cache = new ConcurrentHashMap<>();

  static R mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return NAN;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    BigInteger g = n.gcd(d);
    if (!g.equals(O) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
    if (d.bitLength() > 1500) { // keep very long computations bounded: round to 2^-700
      BigInteger q = n.shiftLeft(700).divide(d); return mk(q, O.shiftLeft(700));
    }
    return new R(n, d, 0);
  }
  static R parse0(String s) {
    if (s.equals("nan")) return NAN; if (s.equals("inf")) return PINF; if (s.equals("-inf")) return NINF;
    int i = s.indexOf('/');
    if (i >= 0) return mk(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0) return fromBD(new BigDecimal(s));
    return new R(new BigInteger(s), O, 0);
  }
  static R fromBD(BigDecimal b) {
    BigInteger u = b.unscaledValue(); int sc = b.scale();
    return sc >= 0 ? mk(u, BigInteger.TEN.pow(sc)) : mk(u.multiply(BigInteger.TEN.pow(-sc)), O);
  }
  static R p(Value v) {
    if (v instanceof IntValue) return new R(BigInteger.valueOf(((IntValue) v).val), O, 0);
    String s = ((StringValue) v).val.toString();
    R r = cache.get(s);
    if (r == null) { r = parse0(s); if (cache.size() > 200000) cache.clear(); cache.put(s, r); }
    return r;
  }
  static String str(R r) {
    if (r.k == 1) return "nan"; if (r.k == 2) return "inf"; if (r.k == 3) return "-inf";
    return r.d.equals(O) ? r.n.toString() : r.n + "/" + r.d;
  }
  static Value v(R r) { return new StringValue(UniqueString.uniqueStringOf(str(r))); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static R add(R a, R c) {
    if (a.k == 1 || c.k == 1) return NAN;
    if (!a.num()) return (!c.num() && a.k != c.k) ? NAN : a;
    if (!c.num()) return c;
    return mk(a.n.multiply(c.d).add(c.n.multiply(a.d)), a.d.multiply(c.d));
  }
  static R neg(R a) { return a.k == 1 ? NAN : a.k == 2 ? NINF : a.k == 3 ? PINF : new R(a.n.negate(), a.d, 0); }
  static R mul(R a, R c) {
    if (a.k == 1 || c.k == 1) return NAN;
    if (!a.num() || !c.num()) { int s = a.sgn() * c.sgn(); return s == 0 ? NAN : s > 0 ? PINF : NINF; }
    return mk(a.n.multiply(c.n), a.d.multiply(c.d));
  }
  static R div(R a, R c) {
    if (a.k == 1 || c.k == 1) return NAN;
    if (!c.num()) return a.num() ? ZERO : NAN;
    if (c.n.signum() == 0) { int s = a.sgn(); return s == 0 ? NAN : s > 0 ? PINF : NINF; }
    if (!a.num()) return a.sgn() * c.sgn() > 0 ? PINF : NINF;
    return mk(a.n.multiply(c.d), a.d.multiply(c.n));
  }
  static int cmp(R a, R c) { // total on non-nan
    if (a.k == c.k && !a.num()) return 0;
    if (a.k == 2 || c.k == 3) return 1;
    if (a.k == 3 || c.k == 2) return -1;
    return a.n.multiply(c.d).compareTo(c.n.multiply(a.d));
  }
  static R abs(R a) { return a.k == 3 ? PINF : a.num() ? new R(a.n.abs(), a.d, 0) : a; }
  static double dbl(R a) {
    if (a.k == 1) return Double.NaN; if (a.k == 2) return Double.POSITIVE_INFINITY; if (a.k == 3) return Double.NEGATIVE_INFINITY;
    return new BigDecimal(a.n).divide(new BigDecimal(a.d), new java.math.MathContext(40)).doubleValue();
  }
  static R ofD(double x) {
    if (Double.isNaN(x)) return NAN; if (Double.isInfinite(x)) return x > 0 ? PINF : NINF;
    return fromBD(new BigDecimal(x));
  }

  public static Value RAdd(Value a, Value c) { return v(add(p(a), p(c))); }
  public static Value RSub(Value a, Value c) { return v(add(p(a), neg(p(c)))); }
  public static Value RMul(Value a, Value c) { return v(mul(p(a), p(c))); }
  public static Value RDiv(Value a, Value c) { return v(div(p(a), p(c))); }
  public static Value RNeg(Value a) { return v(neg(p(a))); }
  public static Value RAbs(Value a) { return v(abs(p(a))); }
  public static Value RLt(Value a, Value c) { R x = p(a), y = p(c); return b(x.k != 1 && y.k != 1 && cmp(x, y) < 0); }
  public static Value RLe(Value a, Value c) { R x = p(a), y = p(c); return b(x.k != 1 && y.k != 1 && cmp(x, y) <= 0); }
  public static Value REq(Value a, Value c) { R x = p(a), y = p(c); return b(x.k != 1 && y.k != 1 && cmp(x, y) == 0); }
  public static Value RIsNum(Value a) { return b(p(a).num()); }
  public static Value RIsNaN(Value a) { return b(p(a).k == 1); }
  public static Value RInt(Value a) { return v(p(a)); }
  // |a-b| <= abstol + reltol*|b|; nan matches nan, infinities match themselves
  public static Value RClose(Value a, Value c, Value at, Value rt) {
    R x = p(a), y = p(c);
    if (!x.num() || !y.num()) return b(x.k == y.k);
    R lim = add(p(at), mul(p(rt), abs(y)));
    return b(cmp(abs(add(x, neg(y))), lim) <= 0);
  }
  static Value[] seq(Value s) { return ((TupleValue) s.toTuple()).elems; }
  public static Value RSum(Value s) {
    R acc = ZERO; for (Value e : seq(s)) acc = add(acc, p(e)); return v(acc);
  }
  public static Value RDot(Value s, Value t) {
    Value[] x = seq(s), y = seq(t); R acc = ZERO;
    for (int i = 0; i < x.length; i++) acc = add(acc, mul(p(x[i]), p(y[i]))); return v(acc);
  }
  public static Value RSeqClose(Value s, Value t, Value at, Value rt) {
    Value[] x = seq(s), y = seq(t); if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (RClose(x[i], y[i], at, rt) != BoolValue.ValTrue) return b(false);
    return b(true);
  }
  // two trees of numbers of the same shape, all leaves close (same meaning as RClose)
  public static Value RSame(Value s, Value t, Value at, Value rt) {
    boolean ls = leaf(s), lt = leaf(t);
    if (ls || lt) return b(ls && lt && RClose(s, t, at, rt) == BoolValue.ValTrue);
    Value[] x = seq(s), y = seq(t); if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (RSame(x[i], y[i], at, rt) != BoolValue.ValTrue) return b(false);
    return b(true);
  }
  static boolean leaf(Value v) { return v instanceof StringValue || v instanceof IntValue; }
  public static Value RExp(Value a) { return v(ofD(Math.exp(dbl(p(a))))); }
  public static Value RLn(Value a) { return v(ofD(Math.log(dbl(p(a))))); }
  public static Value RSqrt(Value a) { return v(ofD(Math.sqrt(dbl(p(a))))); }
  public static Value RPow2(Value a) {
    int i = ((IntValue) a).val; return v(i >= 0 ? mk(O.shiftLeft(i), O) : mk(O, O.shiftLeft(-i)));
  }
  public static Value RFloor(Value a) { R x = p(a); if (!x.num()) return v(x); return v(mk(floor(x), O)); }
  static BigInteger floor(R x) { BigInteger[] q = x.n.divideAndRemainder(x.d); return (q[1].signum() < 0) ? q[0].subtract(O) : q[0]; }
  // standard normal density and distribution function
  public static Value RPhi(Value a) { return v(ofD(phi(dbl(p(a))))); }
  public static Value RNormPdf(Value a) { double x = dbl(p(a)); return v(ofD(Math.exp(-0.5 * x * x) / Math.sqrt(2 * Math.PI))); }
  static double phi(double x) {
    if (x > 9) return 1; if (x < -9) return 0; // Marsaglia's series
    double s = x, t = 0, c = x, q = x * x; long i = 1;
    if (Math.abs(x) < 6) { while (s != t) s = (t = s) + (c *= q / (i += 2)); return .5 + s * Math.exp(-.5 * q - .91893853320467274178); }
    double r = 0; for (int k = 60; k >= 1; k--) r = k / (Math.abs(x) + r);
    double tail = Math.exp(-.5 * q - .91893853320467274178) / (Math.abs(x) + r); return x > 0 ? 1 - tail : tail;
  }
  // a small integer as a TLC integer (for indexing); fails loudly when it is not one
  public static Value RToInt(Value a) { R x = p(a); if (!x.num() || !x.d.equals(O)) throw new RuntimeException("RToInt " + str(x)); return IntValue.gen(x.n.intValueExact()); }
  public static Value RIsInt(Value a) { R x = p(a); return b(x.num() && x.d.equals(O)); }
  // nearest double (keeps long computations cheap where the code itself works in floating point)
  public static Value RDbl(Value a) { return v(ofD(dbl(p(a)))); }
  // evaluate a sequence (of sequences ...) completely, so that later uses do not re-evaluate its body
  static Value force(Value s) {
    if (s instanceof FcnLambdaValue || s instanceof TupleValue || s instanceof FcnRcdValue) {
      TupleValue t = (TupleValue) s.toTuple();
      if (t == null) return s;
      Value[] e = new Value[t.elems.length];
      for (int i = 0; i < e.length; i++) e[i] = force(t.elems[i]);
      return new TupleValue(e);
    }
    return s;
  }
  public static Value RForce(Value s) { return force(s); }
  // ascending order; nan last
  public static Value RSort(Value s) {
    Value[] x = seq(s).clone();
    java.util.Arrays.sort(x, (a, c) -> { R y = p(a), z = p(c); if (y.k == 1 || z.k == 1) return (y.k == 1 ? 1 : 0) - (z.k == 1 ? 1 : 0); return cmp(y, z); });
    return new TupleValue(x);
  }
}
