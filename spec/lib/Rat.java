import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import tlc2.value.impl.*;

/** Arbitrary-precision rationals for TLC: see Rat.tla. */
public class Rat {
  static final MathContext MC = new MathContext(45);
  static final int MAXBITS = 1600;

  /** kind: 0 finite, 1 +inf, -1 -inf, 2 nan. */
  static final class Q {
    final BigInteger n, d; final int k;
    Q(BigInteger n, BigInteger d) {
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (!d.equals(BigInteger.ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      }
      if (n.bitLength() + d.bitLength() > MAXBITS) {
        BigDecimal x = new BigDecimal(n).divide(new BigDecimal(d), new MathContext(120));
        Q q = of(x); n = q.n; d = q.d;
      }
      this.n = n; this.d = d; this.k = 0;
    }
    Q(int k) { this.n = null; this.d = null; this.k = k; }
    private Q(BigInteger n, BigInteger d, boolean raw) { this.n = n; this.d = d; this.k = 0; }
    static Q of(BigDecimal x) {
      BigInteger u = x.unscaledValue(); int s = x.scale();
      BigInteger n = u, d = BigInteger.ONE;
      if (s > 0) d = BigInteger.TEN.pow(s); else if (s < 0) n = u.multiply(BigInteger.TEN.pow(-s));
      BigInteger g = n.gcd(d);
      if (g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
      return new Q(n, d, true);
    }
    boolean fin() { return k == 0; }
    BigDecimal dec() { return new BigDecimal(n).divide(new BigDecimal(d), MC); }
    @Override public String toString() {
      if (k == 1) return "inf"; if (k == -1) return "-inf"; if (k == 2) return "nan";
      return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
    }
  }
  static final Q NAN = new Q(2), INF = new Q(1), NINF = new Q(-1);
  static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);

  static Q parse(Value a) {
    if (a instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) a).val), BigInteger.ONE);
    if (!(a instanceof StringValue)) return NAN;
    String s = ((StringValue) a).val.toString();
    try {
      switch (s) { case "inf": return INF; case "-inf": return NINF; case "nan": case "": return NAN; default: }
      int i = s.indexOf('/');
      if (i >= 0) {
        BigInteger d = new BigInteger(s.substring(i + 1));
        return d.signum() == 0 ? NAN : new Q(new BigInteger(s.substring(0, i)), d);
      }
      if (s.startsWith("0x") || s.startsWith("-0x")) return Q.of(new BigDecimal(Double.parseDouble(s)));
      if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0) return Q.of(new BigDecimal(s));
      return new Q(new BigInteger(s), BigInteger.ONE);
    } catch (NumberFormatException e) { return NAN; }
  }
  static Value out(Q q) { return new StringValue(q.toString()); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static int sgn(Q a) { return a.k == 0 ? a.n.signum() : a.k; }
  static Q neg(Q a) { return a.k == 0 ? new Q(a.n.negate(), a.d) : a.k == 2 ? NAN : a.k == 1 ? NINF : INF; }
  static Q add(Q a, Q b) {
    if (a.k == 2 || b.k == 2) return NAN;
    if (a.k != 0) return b.k == 0 || b.k == a.k ? a : NAN;
    if (b.k != 0) return b;
    return new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static Q mul(Q a, Q b) {
    if (a.k == 2 || b.k == 2) return NAN;
    if (a.k != 0 || b.k != 0) { int s = sgn(a) * sgn(b); return s == 0 ? NAN : s > 0 ? INF : NINF; }
    return new Q(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  static Q div(Q a, Q b) {
    if (a.k == 2 || b.k == 2) return NAN;
    if (b.k != 0) return a.k != 0 ? NAN : ZERO;
    if (b.n.signum() == 0) return NAN;
    if (a.k != 0) return sgn(a) * sgn(b) > 0 ? INF : NINF;
    return new Q(a.n.multiply(b.d), a.d.multiply(b.n));
  }
  static Q abs(Q a) { return a.k == 2 ? NAN : sgn(a) < 0 ? neg(a) : a; }
  /** Comparison of two non-nan numbers. */
  static int cmp(Q a, Q b) {
    if (a.k == 0 && b.k == 0) return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    return Integer.compare(a.k, b.k);
  }
  static boolean nan(Q a, Q b) { return a.k == 2 || b.k == 2; }

  public static Value RNorm(Value a) { return out(parse(a)); }
  public static Value RRound(Value a) { Q x = parse(a); return out(x.fin() && x.n.bitLength() + x.d.bitLength() > 300 ? Q.of(x.dec()) : x); }
  public static Value RAdd(Value a, Value b) { return out(add(parse(a), parse(b))); }
  public static Value RSub(Value a, Value b) { return out(add(parse(a), neg(parse(b)))); }
  public static Value RMul(Value a, Value b) { return out(mul(parse(a), parse(b))); }
  public static Value RDiv(Value a, Value b) { return out(div(parse(a), parse(b))); }
  public static Value RNeg(Value a) { return out(neg(parse(a))); }
  public static Value RAbs(Value a) { return out(abs(parse(a))); }
  public static Value RMin(Value a, Value b) { Q x = parse(a), y = parse(b); return out(nan(x, y) ? NAN : cmp(x, y) <= 0 ? x : y); }
  public static Value RMax(Value a, Value b) { Q x = parse(a), y = parse(b); return out(nan(x, y) ? NAN : cmp(x, y) >= 0 ? x : y); }
  public static Value RLt(Value a, Value b) { Q x = parse(a), y = parse(b); return bool(!nan(x, y) && cmp(x, y) < 0); }
  public static Value RLeq(Value a, Value b) { Q x = parse(a), y = parse(b); return bool(!nan(x, y) && cmp(x, y) <= 0); }
  public static Value REq(Value a, Value b) { Q x = parse(a), y = parse(b); return bool(!nan(x, y) && cmp(x, y) == 0); }
  public static Value RFin(Value a) { return bool(parse(a).fin()); }
  public static Value RIsNan(Value a) { return bool(parse(a).k == 2); }
  public static Value RIsInf(Value a) { return bool(parse(a).k == 1); }
  public static Value RPow(Value a, Value nv) {
    Q x = parse(a); int n = ((IntValue) nv).val;
    if (n == 0) return out(new Q(BigInteger.ONE, BigInteger.ONE));
    if (!x.fin()) { Q r = x; for (int i = 1; i < Math.abs(n); i++) r = mul(r, x); return out(n > 0 ? r : div(new Q(BigInteger.ONE, BigInteger.ONE), r)); }
    if (n > 0) return out(new Q(x.n.pow(n), x.d.pow(n)));
    if (x.n.signum() == 0) return out(NAN);
    return out(new Q(x.d.pow(-n), x.n.pow(-n)));
  }
  static Q sqrt(Q x) {
    if (x.k == 2 || sgn(x) < 0) return NAN;
    if (x.k == 1) return INF;
    if (x.n.signum() == 0) return ZERO;
    BigInteger[] rn = x.n.sqrtAndRemainder(), rd = x.d.sqrtAndRemainder();
    if (rn[1].signum() == 0 && rd[1].signum() == 0) return new Q(rn[0], rd[0]);
    return Q.of(x.dec().sqrt(MC));
  }
  public static Value RSqrt(Value a) { return out(sqrt(parse(a))); }

  static BigDecimal exp(BigDecimal x) {
    // exp(x) = (exp(x / 2^k))^(2^k), Taylor on |x/2^k| < 2^-10
    MathContext m = new MathContext(90);
    int k = 0; BigDecimal y = x; BigDecimal lim = new BigDecimal("0.0009765625"); BigDecimal two = BigDecimal.valueOf(2);
    while (y.abs().compareTo(lim) > 0) { y = y.divide(two, m); k++; }
    BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
    for (int i = 1; i < 40; i++) { t = t.multiply(y, m).divide(BigDecimal.valueOf(i), m); s = s.add(t, m); }
    for (int i = 0; i < k; i++) s = s.multiply(s, m);
    return s.round(MC);
  }
  public static Value RExp(Value a) {
    Q x = parse(a);
    if (x.k == 2) return out(NAN); if (x.k == 1) return out(INF); if (x.k == -1) return out(ZERO);
    BigDecimal d = x.dec();
    if (d.compareTo(BigDecimal.valueOf(-2000000)) < 0) return out(ZERO);
    if (d.compareTo(BigDecimal.valueOf(2000000)) > 0) return out(INF);
    return out(Q.of(exp(d)));
  }
  public static Value RLn(Value a) {
    Q x = parse(a);
    if (x.k == 2 || sgn(x) <= 0) return out(x.k == 0 && x.n.signum() == 0 ? NINF : NAN);
    if (x.k == 1) return out(INF);
    return out(Q.of(ln(x.dec())));
  }
  static BigDecimal ln(BigDecimal x) {
    // Newton (Halley) on exp, from the double estimate of the mantissa and the decimal exponent
    MathContext m = new MathContext(80);
    int e = x.precision() - x.scale();
    BigDecimal mant = x.movePointLeft(e);
    return lnNear(mant, m).add(lnNear(BigDecimal.TEN, m).multiply(BigDecimal.valueOf(e), m), MC);
  }
  static BigDecimal lnNear(BigDecimal x, MathContext m) {
    BigDecimal y = new BigDecimal(Math.log(x.doubleValue()));
    for (int i = 0; i < 3; i++) {
      BigDecimal ey = exp(y);
      y = y.add(BigDecimal.valueOf(2).multiply(x.subtract(ey, m), m).divide(x.add(ey, m), m), m);
    }
    return y;
  }
  static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798");
  public static Value RPi() { return out(Q.of(PI)); }
  public static Value RErf(Value a) {
    Q q = parse(a);
    if (q.k == 2) return out(NAN);
    double big = q.k != 0 ? 99 : Math.abs(q.dec().doubleValue());
    if (big > 12) return out(new Q(BigInteger.valueOf(sgn(q) > 0 ? 1 : -1), BigInteger.ONE));
    // series 2/sqrt(pi) e^{-x^2} sum 2^n x^{2n+1} / (2n+1)!!, all terms of one sign
    MathContext m = new MathContext(80);
    BigDecimal x = q.dec(), x2 = x.multiply(x, m), t = x, s = x;
    for (int n = 1; n < 2000 && t.abs().compareTo(new BigDecimal("1e-70")) > 0; n++) {
      t = t.multiply(x2, m).multiply(BigDecimal.valueOf(2), m).divide(BigDecimal.valueOf(2L * n + 1), m); s = s.add(t, m);
    }
    return out(Q.of(s.multiply(exp(x2.negate()), m).multiply(BigDecimal.valueOf(2), m).divide(PI.sqrt(m), MC)));
  }
  /** K_n(x) = integral over t >= 0 of exp(-x cosh t) cosh(n t): trapezoidal rule, double exponential decay. */
  public static Value RBesselK(Value nv, Value xv) {
    int n = ((IntValue) nv).val; Q q = parse(xv);
    if (!q.fin() || sgn(q) <= 0) return out(NAN);
    double x = q.dec().doubleValue();
    double h = 1.0 / 64, s = 0, c = 0;
    for (int i = 0; i < 64 * 60; i++) {
      double t = i * h, lg = -x * (Math.cosh(t) - 1) + n * t;
      double term = Math.exp(lg) * 0.5 * (1 + Math.exp(-2.0 * n * t)) * (i == 0 ? 0.5 : 1.0);
      double y = term - c, z = s + y; c = (z - s) - y; s = z;
      if (i > 64 && lg < -80) break;
    }
    return out(Q.of(new BigDecimal(s * h).multiply(exp(new BigDecimal(-x)), MC)));
  }
  static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) return null;
    return ((TupleValue) t).elems;
  }
  public static Value RSum(Value v) {
    Value[] e = seq(v); if (e == null) return out(NAN);
    Q s = ZERO; for (Value x : e) s = add(s, parse(x)); return out(s);
  }
  public static Value RDot(Value v, Value w) {
    Value[] e = seq(v), f = seq(w); if (e == null || f == null || e.length != f.length) return out(NAN);
    Q s = ZERO; for (int i = 0; i < e.length; i++) s = add(s, mul(parse(e[i]), parse(f[i]))); return out(s);
  }
  public static Value RClose(Value av, Value bv, Value rv, Value tv) {
    Q a = parse(av), b = parse(bv), r = parse(rv), t = parse(tv);
    if (nan(a, b)) return bool(false);
    if (a.k != 0 || b.k != 0) return bool(a.k == b.k);
    Q m = cmp(abs(a), abs(b)) >= 0 ? abs(a) : abs(b);
    return bool(cmp(abs(add(a, neg(b))), add(t, mul(r, m))) <= 0);
  }
  public static Value RFloor(Value av) {
    Q a = parse(av); BigInteger[] qr = a.n.divideAndRemainder(a.d);
    BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    return IntValue.gen(f.intValueExact());
  }
}
