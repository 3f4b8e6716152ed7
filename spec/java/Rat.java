// TLC operator overrides for module Rat (exact rational arithmetic on strings).
// Canonical text: "p" or "p/q" (q>1, gcd 1), "nan", "inf", "-inf"; complex values "re|im" (im # 0).
// Any decimal or hex-float literal is accepted on input.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public class Rat {
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
  static final MathContext MC = new MathContext(40);

  // ---- one real component -------------------------------------------------
  static final class R {
    final int s;            // 0 finite, 1 +inf, -1 -inf, 2 nan
    final BigInteger n, d;
    R(int s) { this.s = s; n = ZERO; d = ONE; }
    R(BigInteger n, BigInteger d) {
      s = 0;
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g = n.gcd(d);
      if (!g.equals(ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
      this.n = n; this.d = d;
    }
    boolean nan() { return s == 2; }
    boolean inf() { return s == 1 || s == -1; }
    boolean zero() { return s == 0 && n.signum() == 0; }
    int sign() { return s == 0 ? n.signum() : (s == 2 ? 0 : s); }
    double dbl() {
      if (s == 2) return Double.NaN;
      if (s == 1) return Double.POSITIVE_INFINITY;
      if (s == -1) return Double.NEGATIVE_INFINITY;
      return new BigDecimal(n).divide(new BigDecimal(d), MC).doubleValue();
    }
    BigDecimal dec() { return new BigDecimal(n).divide(new BigDecimal(d), MC); }
    public String toString() {
      if (s == 2) return "nan"; if (s == 1) return "inf"; if (s == -1) return "-inf";
      return d.equals(ONE) ? n.toString() : n + "/" + d;
    }
  }
  static final R NAN = new R(2), PINF = new R(1), NINF = new R(-1), RZ = new R(ZERO, ONE), R1 = new R(ONE, ONE);

  static R of(double x) {
    if (Double.isNaN(x)) return NAN;
    if (Double.isInfinite(x)) return x > 0 ? PINF : NINF;
    return of(new BigDecimal(x));
  }
  static R of(BigDecimal b) {
    if (b.scale() <= 0) return new R(b.toBigIntegerExact(), ONE);
    return new R(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }
  static R parseR(String t) {
    t = t.trim();
    switch (t) {
      case "nan": case "-nan": return NAN;
      case "inf": case "+inf": return PINF;
      case "-inf": return NINF;
      case "True": return R1;
      case "False": return RZ;
    }
    int i = t.indexOf('/');
    if (i >= 0) return new R(new BigInteger(t.substring(0, i)), new BigInteger(t.substring(i + 1)));
    if (t.indexOf('x') >= 0) return of(Double.parseDouble(t));
    return of(new BigDecimal(t));
  }
  static R add(R a, R b) {
    if (a.nan() || b.nan()) return NAN;
    if (a.inf() || b.inf()) {
      if (a.inf() && b.inf()) return a.s == b.s ? a : NAN;
      return a.inf() ? a : b;
    }
    return new R(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static R neg(R a) { return a.s == 0 ? new R(a.n.negate(), a.d) : a.nan() ? NAN : new R(-a.s); }
  static R mul(R a, R b) {
    if (a.nan() || b.nan()) return NAN;
    if (a.inf() || b.inf()) { int s = a.sign() * b.sign(); return s == 0 ? NAN : new R(s); }
    return new R(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  static R div(R a, R b) {
    if (a.nan() || b.nan()) return NAN;
    if (a.inf()) { if (b.inf()) return NAN; int s = b.sign() < 0 ? -a.s : a.s; return new R(s); }
    if (b.inf()) return RZ;
    if (b.zero()) { return a.zero() ? NAN : new R(a.sign()); }
    return new R(a.n.multiply(b.d), a.d.multiply(b.n));
  }
  static R abs(R a) { return a.sign() < 0 ? neg(a) : a; }
  static int cmp(R a, R b) {   // callers exclude nan
    if (a.s == b.s && a.s != 0) return 0;
    if (a.s == 1 || b.s == -1) return 1;
    if (a.s == -1 || b.s == 1) return -1;
    return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
  }
  static R floor(R a) {
    if (a.s != 0) return a;
    BigInteger[] q = a.n.divideAndRemainder(a.d);
    return new R(q[1].signum() < 0 ? q[0].subtract(ONE) : q[0], ONE);
  }
  static R rint(R a) {   // half to even
    if (a.s != 0) return a;
    R h = new R(a.n.multiply(BigInteger.TWO).add(a.d), a.d.multiply(BigInteger.TWO));
    R f = floor(h);
    if (cmp(f, h) == 0 && f.n.testBit(0)) f = new R(f.n.subtract(ONE), ONE);
    return f;
  }
  static R powi(R a, int k) {
    if (k == 0) return R1;
    if (a.nan()) return NAN;
    if (a.inf()) { if (k < 0) return RZ; return (a.s < 0 && (k & 1) == 1) ? NINF : PINF; }
    if (Math.abs((double) k) * Math.max(a.n.bitLength(), a.d.bitLength()) > 4000000) {
      int c = cmp(abs(a), R1);
      if (c != 0) return (c > 0) == (k > 0) ? (a.sign() < 0 && (k & 1) == 1 ? NINF : PINF) : RZ;
    }
    if (k < 0) { if (a.zero()) return PINF; return new R(a.d.pow(-k), a.n.pow(-k)); }
    return new R(a.n.pow(k), a.d.pow(k));
  }
  static R sqrt(R a) {
    if (a.nan() || a.sign() < 0) return NAN;
    if (a.inf()) return a;
    if (a.zero()) return RZ;
    BigInteger sn = a.n.sqrt(), sd = a.d.sqrt();
    if (sn.multiply(sn).equals(a.n) && sd.multiply(sd).equals(a.d)) return new R(sn, sd);
    return of(a.dec().sqrt(MC));
  }
  static R pow(R a, R p) {
    if (p.nan()) return NAN;
    if (p.zero()) return R1;
    if (p.s == 0 && p.d.equals(ONE) && p.n.bitLength() < 20) return powi(a, p.n.intValue());
    if (p.s == 0 && p.d.equals(BigInteger.TWO) && p.n.bitLength() < 20 && a.s != -1) return powi(sqrt(a), p.n.intValue());
    if (a.inf()) return p.sign() > 0 ? PINF : RZ;
    if (a.nan() || a.sign() < 0) return NAN;
    if (a.zero()) return p.sign() > 0 ? RZ : PINF;
    double x = a.dbl();
    if (x == 0 || Double.isInfinite(x)) {    // out of double range: use logs
      int sh = a.n.bitLength() - a.d.bitLength();
      R m = sh >= 0 ? new R(a.n, a.d.shiftLeft(sh)) : new R(a.n.shiftLeft(-sh), a.d);
      double l = (Math.log(m.dbl()) / Math.log(2) + sh) * p.dbl();
      if (!(Math.abs(l) < 100000)) return l > 0 ? PINF : Double.isNaN(l) ? NAN : RZ;
      int k = (int) Math.floor(l);
      R f = of(Math.pow(2, l - k));
      return mul(f, powi(new R(BigInteger.TWO, ONE), k));
    }
    return of(Math.pow(x, p.dbl()));
  }

  // ---- complex -------------------------------------------------------------
  static final class C {
    final R re, im;
    C(R re, R im) { this.re = re; this.im = im; }
    C(R re) { this.re = re; this.im = RZ; }
    boolean real() { return im.zero(); }
    boolean nan() { return re.nan() || im.nan(); }
    public String toString() { return im.zero() ? re.toString() : re + "|" + im; }
  }
  static final ConcurrentHashMap<String, C> cache = new ConcurrentHashMap<>();
  static C parse(String t) {
    C c = cache.get(t);
    if (c != null) return c;
    int i = t.indexOf('|');
    c = i < 0 ? new C(parseR(t)) : new C(parseR(t.substring(0, i)), parseR(t.substring(i + 1)));
    if (cache.size() > 200000) cache.clear();
    cache.put(t, c);
    return c;
  }
  static C v(Value x) {
    if (x instanceof StringValue) return parse(((StringValue) x).val.toString());
    if (x instanceof IntValue) return new C(new R(BigInteger.valueOf(((IntValue) x).val), ONE));
    if (x instanceof BoolValue) return new C(((BoolValue) x).val ? R1 : RZ);
    throw new RuntimeException("Rat: not a number: " + x);
  }
  static String str(Value x) { return ((StringValue) x).val.toString(); }
  static StringValue out(C c) {
    String s = c.toString();
    if (cache.size() > 200000) cache.clear();
    cache.putIfAbsent(s, c);
    return new StringValue(s);
  }
  static StringValue out(R r) { return out(new C(r)); }
  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static C cadd(C a, C b) { return new C(add(a.re, b.re), add(a.im, b.im)); }
  static C cneg(C a) { return new C(neg(a.re), neg(a.im)); }
  static C cmul(C a, C b) {
    if (a.real() && b.real()) return new C(mul(a.re, b.re));
    if (a.real()) return new C(mul(a.re, b.re), mul(a.re, b.im));
    if (b.real()) return new C(mul(a.re, b.re), mul(a.im, b.re));
    return new C(add(mul(a.re, b.re), neg(mul(a.im, b.im))), add(mul(a.re, b.im), mul(a.im, b.re)));
  }
  static C cdiv(C a, C b) {
    if (b.real()) { if (a.real()) return new C(div(a.re, b.re)); return new C(div(a.re, b.re), div(a.im, b.re)); }
    R m = add(mul(b.re, b.re), mul(b.im, b.im));
    C q = cmul(a, new C(b.re, neg(b.im)));
    return new C(div(q.re, m), div(q.im, m));
  }
  static R cabs(C a) { return a.real() ? abs(a.re) : sqrt(add(mul(a.re, a.re), mul(a.im, a.im))); }

  public static Value RNorm(Value a) { return out(v(a)); }
  public static Value RAdd(Value a, Value b) { return out(cadd(v(a), v(b))); }
  public static Value RSub(Value a, Value b) { return out(cadd(v(a), cneg(v(b)))); }
  public static Value RMul(Value a, Value b) { return out(cmul(v(a), v(b))); }
  public static Value RDiv(Value a, Value b) { return out(cdiv(v(a), v(b))); }
  public static Value RNeg(Value a) { return out(cneg(v(a))); }
  public static Value RAbs(Value a) { return out(cabs(v(a))); }
  public static Value RRe(Value a) { return out(v(a).re); }
  public static Value RIm(Value a) { return out(v(a).im); }
  public static Value RMkC(Value a, Value b) { return out(new C(v(a).re, v(b).re)); }
  public static Value RConj(Value a) { C c = v(a); return out(new C(c.re, neg(c.im))); }
  public static Value RPow(Value a, Value p) {
    C x = v(a); R q = v(p).re;
    if (x.real()) return out(pow(x.re, q));
    if (q.s == 0 && q.d.equals(ONE)) {
      int k = q.n.intValue(); C r = new C(R1);
      for (int i = 0; i < Math.abs(k); i++) r = cmul(r, x);
      return out(k < 0 ? cdiv(new C(R1), r) : r);
    }
    double rr = Math.pow(cabs(x).dbl(), q.dbl()), th = Math.atan2(x.im.dbl(), x.re.dbl()) * q.dbl();
    return out(new C(of(rr * Math.cos(th)), of(rr * Math.sin(th))));
  }
  // comparisons; nan compares false like IEEE; complex: lexicographic as numpy
  static int ccmp(C a, C b) { int c = cmp(a.re, b.re); return c != 0 ? c : cmp(a.im, b.im); }
  public static Value RLt(Value a, Value b) { C x = v(a), y = v(b); return b(!x.nan() && !y.nan() && ccmp(x, y) < 0); }
  public static Value RLe(Value a, Value b) { C x = v(a), y = v(b); return b(!x.nan() && !y.nan() && ccmp(x, y) <= 0); }
  public static Value REq(Value a, Value b) { C x = v(a), y = v(b); return b(!x.nan() && !y.nan() && ccmp(x, y) == 0); }
  public static Value RIsNan(Value a) { return b(v(a).nan()); }
  public static Value RIsFinite(Value a) { C x = v(a); return b(x.re.s == 0 && x.im.s == 0); }
  public static Value RIsInt(Value a) { C x = v(a); return b(x.re.s == 0 && x.re.d.equals(ONE) && x.real()); }
  public static Value RSign(Value a) { return IntValue.gen(v(a).re.sign()); }

  static final R HUGE = of(1.7e308), TINY = of(1e-305);
  static boolean closeR(R x, R y, R tol) {   // |x-y| <= tol, identical specials
    if (x.nan() || y.nan()) return x.nan() && y.nan();
    if (x.inf() || y.inf()) {
      if (x.s == y.s) return true;
      R f = x.inf() ? y : x;                      // overflow of an inexact result
      return tol.sign() > 0 && !f.inf() && (x.inf() ? x.s : y.s) == f.sign() && cmp(abs(f), HUGE) >= 0;
    }
    if (tol.sign() > 0) tol = maxR(tol, TINY);    // underflow
    return cmp(abs(add(x, neg(y))), tol) <= 0;
  }
  static boolean close(C x, C y, R tol) { return closeR(x.re, y.re, tol) && closeR(x.im, y.im, tol); }
  static R fin(R a) { return a.s == 0 ? abs(a) : RZ; }
  static R maxR(R a, R b) { return cmp(a, b) >= 0 ? a : b; }
  // relative closeness: |x-y| <= rel * max(|x|,|y|)
  public static Value RClose(Value a, Value bb, Value rel) {
    C x = v(a), y = v(bb);
    R m = maxR(maxR(fin(x.re), fin(x.im)), maxR(fin(y.re), fin(y.im)));
    return b(close(x, y, mul(v(rel).re, m)));
  }
  // |x-y| <= tol * max(|x|,|y|,|scale|)
  public static Value RCloseS(Value a, Value bb, Value rel, Value scale) {
    C x = v(a), y = v(bb), s = v(scale);
    R m = maxR(maxR(fin(x.re), fin(x.im)), maxR(fin(y.re), fin(y.im)));
    m = maxR(m, maxR(fin(s.re), fin(s.im)));
    return b(close(x, y, mul(v(rel).re, m)));
  }
  public static Value RFloor(Value a) { return out(floor(v(a).re)); }
  public static Value RCeil(Value a) { return out(neg(floor(neg(v(a).re)))); }
  public static Value RTrunc(Value a) { R x = v(a).re; return out(x.sign() < 0 ? neg(floor(neg(x))) : floor(x)); }
  public static Value RRint(Value a) { C c = v(a); return out(new C(rint(c.re), rint(c.im))); }
  public static Value RMod(Value a, Value bb) { R x = v(a).re, y = v(bb).re; return out(modR(x, y)); }
  static R modR(R x, R y) {
    if (x.s != 0 || y.nan() || y.zero()) return NAN;
    if (y.inf()) return x.zero() || x.sign() == y.sign() ? x : y;
    return add(x, neg(mul(y, floor(div(x, y)))));
  }
  // is r an acceptable float result of x mod y (sign of y)?  tol is relative to max(|x|,|y|)
  public static Value RModOK(Value r0, Value a, Value bb, Value rel) {
    R r = v(r0).re, x = v(a).re, y = v(bb).re;
    R e = modR(x, y);
    if (e.nan() || r.nan()) return b(e.nan() && r.nan());
    R tol = mul(v(rel).re, maxR(fin(x), fin(y)));
    if (closeR(r, e, tol)) return BoolValue.ValTrue;
    if (y.s != 0) return BoolValue.ValFalse;
    return b(closeR(e, RZ, tol) && closeR(r, y, tol) || closeR(e, y, tol) && closeR(r, RZ, tol));
  }
  public static Value RFmodOK(Value r0, Value a, Value bb, Value rel) {
    R r = v(r0).re, x = v(a).re, y = v(bb).re;
    if (x.s != 0 || y.nan() || y.zero()) return b(r.nan());
    if (y.inf()) return b(closeR(r, x, mul(v(rel).re, abs(x))));
    R q = div(x, y); q = q.sign() < 0 ? neg(floor(neg(q))) : floor(q);
    R e = add(x, neg(mul(y, q)));
    if (r.nan()) return BoolValue.ValFalse;
    R tol = mul(v(rel).re, maxR(fin(x), fin(y)));
    // one step of y apart, when x/y is nearly a whole number
    boolean near0 = closeR(e, RZ, tol), nearY = closeR(abs(e), abs(y), tol);
    return b(closeR(r, e, tol) || (near0 || nearY) && (closeR(abs(r), abs(y), tol) || closeR(r, RZ, tol)) && (r.sign() == 0 || x.sign() == r.sign() || closeR(r, RZ, tol)));
  }
  // is r an acceptable floor(x/y)?  exact, or off by one when x/y is within rel of an integer
  public static Value RFloorDivOK(Value r0, Value a, Value bb, Value rel) {
    R r = v(r0).re, x = v(a).re, y = v(bb).re;
    R q = div(x, y);
    if (q.inf()) return b(r.s == q.s || r.nan());
    if (q.nan() || r.nan()) return b(q.nan() && r.nan());
    R f = floor(q);
    if (cmp(f, r) == 0) return BoolValue.ValTrue;
    R tol = mul(v(rel).re, maxR(fin(q), R1));
    R lo = floor(add(q, neg(tol))), hi = floor(add(q, tol));
    return b(cmp(r, lo) >= 0 && cmp(r, hi) <= 0);
  }
  static Value[] seq(Value s) { return ((TupleValue) s.toTuple()).elems; }
  public static Value RSum(Value s) { C c = new C(RZ); for (Value e : seq(s)) c = cadd(c, v(e)); return out(c); }
  public static Value RProd(Value s) { C c = new C(R1); for (Value e : seq(s)) c = cmul(c, v(e)); return out(c); }
  public static Value RDot(Value s, Value t) {
    Value[] a = seq(s), bb = seq(t); C c = new C(RZ);
    for (int i = 0; i < a.length; i++) c = cadd(c, cmul(v(a[i]), v(bb[i])));
    return out(c);
  }
  // largest finite |component| in a sequence
  public static Value RMaxAbs(Value s) {
    R m = RZ; for (Value e : seq(s)) { C c = v(e); m = maxR(m, maxR(fin(c.re), fin(c.im))); }
    return out(m);
  }
  static double asinh(double x) { double a = Math.abs(x); double r = Math.log(a + Math.sqrt(a * a + 1)); if (a < 1e-3) r = a - a*a*a/6 + 3*a*a*a*a*a/40; return x < 0 ? -r : r; }
  static double atanh(double x) { return 0.5 * Math.log1p(2 * x / (1 - x)); }
  public static Value RFun(Value f, Value a) {
    String n = str(f); R r = v(a).re; double x = r.dbl();
    switch (n) {
      case "sqrt": return out(sqrt(r));
      case "cbrt": return out(of(Math.cbrt(x)));
      case "sin": return out(of(Math.sin(x)));
      case "cos": return out(of(Math.cos(x)));
      case "tan": return out(of(Math.tan(x)));
      case "arcsin": return out(of(Math.asin(x)));
      case "arccos": return out(of(Math.acos(x)));
      case "arctan": return out(of(Math.atan(x)));
      case "sinh": return out(of(Math.sinh(x)));
      case "cosh": return out(of(Math.cosh(x)));
      case "tanh": return out(of(Math.tanh(x)));
      case "arcsinh": return out(of(asinh(x)));
      case "arccosh": return out(of(x < 1 ? Double.NaN : Math.log(x + Math.sqrt(x * x - 1))));
      case "arctanh": return out(of(Math.abs(x) > 1 ? Double.NaN : atanh(x)));
      case "exp": return out(of(Math.exp(x)));
      case "exp2": return out(of(Math.pow(2, x)));
      case "expm1": return out(of(Math.expm1(x)));
      case "log": return out(of(Math.log(x)));
      case "log2": return out(of(Math.log(x) / Math.log(2)));
      case "log10": return out(of(Math.log10(x)));
      case "log1p": return out(of(Math.log1p(x)));
      case "radians": case "deg2rad": return out(of(x * Math.PI / 180));
      case "degrees": case "rad2deg": return out(of(x * 180 / Math.PI));
    }
    throw new RuntimeException("RFun: unknown " + n);
  }
  public static Value RFun2(Value f, Value a, Value bb) {
    String n = str(f); double x = v(a).re.dbl(), y = v(bb).re.dbl();
    switch (n) {
      case "arctan2": return out(of(Math.atan2(x, y)));
      case "hypot": return out(of(Math.hypot(x, y)));
      case "logaddexp": { double m = Math.max(x, y), d = -Math.abs(x - y); return out(of(x == y ? x + Math.log(2) : m + Math.log1p(Math.exp(d)))); }
      case "logaddexp2": { double m = Math.max(x, y), d = -Math.abs(x - y); return out(of(x == y ? x + 1 : m + Math.log1p(Math.pow(2, d)) / Math.log(2))); }
    }
    throw new RuntimeException("RFun2: unknown " + n);
  }

  // ---- text helpers (module Text) live here too -----------------------------
  // SChars("abc") = <<"a","b","c">>
  public static Value SChars(Value s) {
    String t = str(s); int n = t.codePointCount(0, t.length());
    Value[] r = new Value[n];
    for (int i = 0, k = 0; i < t.length(); k++) {
      int cp = t.codePointAt(i); r[k] = new StringValue(new String(Character.toChars(cp))); i += Character.charCount(cp);
    }
    return new TupleValue(r);
  }
  public static Value SCat(Value s) { StringBuilder sb = new StringBuilder(); for (Value e : seq(s)) sb.append(str(e)); return new StringValue(sb.toString()); }
  public static Value SLen(Value s) { return IntValue.gen(str(s).length()); }
  public static Value SReplace(Value s, Value a, Value bb) { return new StringValue(str(s).replace(str(a), str(bb))); }
  public static Value SLower(Value s) { return new StringValue(str(s).toLowerCase()); }
  public static Value SLe(Value s, Value t) { return b(str(s).compareTo(str(t)) <= 0); }
  public static Value SStarts(Value s, Value p) { return b(str(s).startsWith(str(p))); }
  public static Value SHas(Value s, Value p) { return b(str(s).contains(str(p))); }
}
