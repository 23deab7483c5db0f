import tlc2.value.impl.*;

/** Accelerator for spec/Trig.tla; see Flt.java. */
public class Trig {
  static final int T = 360000000;
  static final double RAD = Math.PI / 180000000.0;
  static int I(Value v) { return ((IntValue) v).val; }
  static int wrap(int a) { return Math.floorMod(a, T); }
  static int sin8(int a) {
    int x = wrap(a);
    if (x > 90000000 && x <= 270000000) x = 180000000 - x; else if (x > 270000000) x = x - T;
    return (int) Math.round(Math.sin(x * RAD) * 1e8);
  }
  public static Value Sin8(Value a) { return IntValue.gen(sin8(I(a))); }
  public static Value Cos8(Value a) { return IntValue.gen(sin8(wrap(I(a)) + 90000000)); }
  public static Value FSin(Value a) { return Flt.norm(sin8(I(a)), -8); }
  public static Value FCos(Value a) { return Flt.norm(sin8(wrap(I(a)) + 90000000), -8); }
  public static Value FSum8(Value s) {
    TupleValue t = Flt.tup(s);
    long r = 0;
    for (Value v : t.elems) r += I(v);
    return Flt.norm(r, -8);
  }
  public static Value FSum8W(Value s, Value w) {
    TupleValue t = Flt.tup(s), u = Flt.tup(w);
    long r = 0;
    for (int i = 0; i < t.elems.length; i++) r += (long) I(t.elems[i]) * I(u.elems[i]);
    return Flt.norm(r, -8);
  }
  public static Value FRadOf(Value a) {
    return I(a) == -2000000000 ? Flt.NAN : Flt.ofD(I(a) * RAD, 0);
  }
  public static Value ARadToA(Value f) {
    if (Flt.nan(f)) return IntValue.gen(-2000000000);
    double d = Flt.toD(f) / RAD;
    if (Math.abs(d) > 2e9) return IntValue.gen(-2000000000);
    return IntValue.gen((int) Math.round(d));
  }
  public static Value AAtan2(Value s, Value c) {
    if (Flt.nan(s) || Flt.nan(c) || (Flt.M(s) == 0 && Flt.M(c) == 0)) return IntValue.gen(-2000000000);
    int k = -Math.max(Flt.M(s) == 0 ? -9999 : Flt.E(s), Flt.M(c) == 0 ? -9999 : Flt.E(c));
    double x = Flt.M(c) * Math.pow(10, Flt.E(c) + k), y = Flt.M(s) * Math.pow(10, Flt.E(s) + k);
    return IntValue.gen(wrap((int) Math.round(Math.atan2(y, x) / RAD)));
  }
}
