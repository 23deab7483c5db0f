import tlc2.value.impl.*;

/**
 * Accelerator for spec/Flt.tla.  The meaning of every operator is its TLA+
 * definition; TLC loads this class (same name as the module) when it is on the
 * class path and evaluates the operators below natively.  harness/selftest.py
 * evaluates the same expressions with and without this class and compares.
 */
public class Flt {
  static final long P7 = 10000000L, P8 = 100000000L;
  static final TupleValue NAN = mk(0, 9999), ZERO = mk(0, 0);
  static final long[] P10L = new long[18];
  static final double[] P10 = new double[617];
  static {
    P10L[0] = 1;
    for (int i = 1; i < 18; i++) P10L[i] = P10L[i - 1] * 10;
    for (int i = -308; i <= 308; i++) P10[i + 308] = Double.parseDouble("1e" + i);
  }
  static TupleValue mk(int m, int e) { return new TupleValue(new Value[] { IntValue.gen(m), IntValue.gen(e) }); }
  static TupleValue tup(Value v) { return (TupleValue) v.toTuple(); }
  static int M(Value v) { return ((IntValue) tup(v).elems[0]).val; }
  static int E(Value v) { return ((IntValue) tup(v).elems[1]).val; }
  static boolean nan(Value v) { return E(v) == 9999; }

  static TupleValue norm(long m, long e) {
    if (m == 0) return ZERO;
    long a = Math.abs(m);
    int k = 0;
    if (a >= P8) {
      while (a / P10L[k] >= P8) k++;
      long q = (a + P10L[k] / 2) / P10L[k];
      if (q >= P8) { q /= 10; k++; }
      a = q; e += k;
    } else {
      while (a < P7) { a *= 10; e--; }
    }
    if (e > 800) return mk(m > 0 ? (int) P7 : -(int) P7, 900);
    if (e < -800) return ZERO;
    return mk((int) (m > 0 ? a : -a), (int) e);
  }
  /** d * 10^k in normal form */
  static TupleValue ofD(double d, int k) {
    if (Double.isNaN(d)) return NAN;
    if (d == 0) return ZERO;
    if (Double.isInfinite(d)) return mk(d > 0 ? (int) P7 : -(int) P7, 900);
    double a = Math.abs(d);
    int e = (int) Math.floor(Math.log10(a)) - 7;
    double s = e > -300 && e < 300 ? (e >= 0 ? a / P10[e + 308] : a * P10[-e + 308]) : a * Math.pow(10, -e / 2.0) * Math.pow(10, -e / 2.0);
    long m = Math.round(s);
    return norm(d > 0 ? m : -m, e + k);
  }
  static double toD(Value v) {
    int m = M(v), e = E(v);
    if (e == 9999) return Double.NaN;
    if (m == 0) return 0;
    if (e > 300) return m > 0 ? Double.POSITIVE_INFINITY : Double.NEGATIVE_INFINITY;
    if (e < -308) return 0;
    return e >= 0 ? m * P10[e + 308] : (e >= -22 ? m / P10[-e + 308] : m * P10[e + 308]);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int I(Value v) { return ((IntValue) v).val; }

  public static Value FNorm(Value m, Value e) { return norm(I(m), I(e)); }
  public static Value FInt(Value n) { return norm(I(n), 0); }
  public static Value FDec(Value m, Value e) { return norm(I(m), I(e)); }
  public static Value FIsNaN(Value a) { return bool(nan(a)); }
  public static Value FNeg(Value a) { return nan(a) ? a : mk(-M(a), E(a)); }
  public static Value FAbs(Value a) { return nan(a) ? a : mk(Math.abs(M(a)), E(a)); }

  static TupleValue add(long m1, int e1, long m2, int e2) {
    if (m1 == 0) return norm(m2, e2);
    if (m2 == 0) return norm(m1, e1);
    if (e1 < e2) { long m = m1; m1 = m2; m2 = m; int e = e1; e1 = e2; e2 = e; }
    int d = e1 - e2;
    if (d > 9) return norm(m1, e1);
    return norm(m1 * P10L[d] + m2, e2);
  }
  public static Value FAdd(Value a, Value b) { return nan(a) || nan(b) ? NAN : add(M(a), E(a), M(b), E(b)); }
  public static Value FSub(Value a, Value b) { return nan(a) || nan(b) ? NAN : add(M(a), E(a), -(long) M(b), E(b)); }
  public static Value FMul(Value a, Value b) {
    return nan(a) || nan(b) ? NAN : norm((long) M(a) * M(b), (long) E(a) + E(b));
  }
  public static Value FSq(Value a) { return FMul(a, a); }
  public static Value FDiv(Value a, Value b) {
    if (nan(a) || nan(b) || M(b) == 0) return NAN;
    if (M(a) == 0) return ZERO;
    long q = ((long) Math.abs(M(a)) * 10000000000L) / Math.abs(M(b));
    return norm((M(a) > 0) == (M(b) > 0) ? q : -q, (long) E(a) - E(b) - 10);
  }
  static int cmp(Value a, Value b) {
    int ma = M(a), mb = M(b), sa = Integer.signum(ma), sb = Integer.signum(mb);
    if (sa != sb) return Integer.compare(sa, sb);
    if (sa == 0) return 0;
    int ea = E(a), eb = E(b);
    if (ea != eb) return sa > 0 ? Integer.compare(ea, eb) : Integer.compare(eb, ea);
    return Integer.compare(ma, mb);
  }
  static boolean lt(Value a, Value b) { return !nan(a) && !nan(b) && cmp(a, b) < 0; }
  static boolean le(Value a, Value b) { return !nan(a) && !nan(b) && cmp(a, b) <= 0; }
  public static Value FLt(Value a, Value b) { return bool(lt(a, b)); }
  public static Value FLe(Value a, Value b) { return bool(le(a, b)); }
  public static Value FMax(Value a, Value b) { return lt(a, b) ? b : a; }
  public static Value FMin(Value a, Value b) { return lt(b, a) ? b : a; }
  static boolean rel(Value a, Value b, Value tol, Value floor) {
    if (nan(a) || nan(b)) return false;
    Value d = FAbs(FSub(a, b));
    return le(d, floor) || le(d, FMul(tol, FMax(FAbs(a), FAbs(b))));
  }
  public static Value FNear(Value a, Value b, Value tol) { return bool(rel(a, b, tol, tol)); }
  public static Value FRel(Value a, Value b, Value tol, Value floor) { return bool(rel(a, b, tol, floor)); }
  public static Value FSame(Value a, Value b, Value tol) { return bool((nan(a) && nan(b)) || rel(a, b, tol, tol)); }
  public static Value FSqrt(Value a) {
    if (nan(a) || M(a) < 0) return NAN;
    if (M(a) == 0) return ZERO;
    int e = E(a); double m = M(a);
    if ((e & 1) != 0) { m *= 10; e--; }
    return ofD(Math.sqrt(m), e / 2);
  }
  public static Value FPoly(Value c, Value x, Value k) {
    TupleValue t = tup(c);
    if (nan(x)) return NAN;
    Value r = t.elems[t.elems.length - 1];
    for (int i = t.elems.length - 2; i >= I(k) - 1; i--) r = FAdd(t.elems[i], FMul(x, r));
    return r;
  }
  public static Value FRound(Value a) {
    if (nan(a)) return IntValue.gen(0);
    double d = toD(a);
    if (Math.abs(d) > 2000000000.0) return IntValue.gen(d > 0 ? 2000000000 : -2000000000);
    long r = (long) Math.floor(Math.abs(d) + 0.5);
    return IntValue.gen((int) (d < 0 ? -r : r));
  }
  public static Value FExp(Value a) {
    if (nan(a)) return NAN;
    double d = toD(a);
    if (d > 1800) return mk((int) P7, 900);
    if (d < -1800) return ZERO;
    long k = Math.round(d / 2.302585092994046);
    return ofD(Math.exp(d - k * 2.302585092994046), (int) k);
  }
  public static Value FLn(Value a) {
    if (nan(a) || M(a) <= 0) return NAN;
    return ofD(Math.log(M(a)) + E(a) * 2.302585092994046, 0);
  }
  public static Value FSum(Value s) {
    TupleValue t = tup(s);
    Value r = ZERO;
    for (int i = t.elems.length - 1; i >= 0; i--) r = FAdd(t.elems[i], r);
    return r;
  }
}
