import tlc2.value.impl.*;

/** Accelerator for spec/Sample.tla; see Flt.java. */
public class Sample {
  public static Value ISum(Value s) {
    int r = 0;
    for (Value v : Flt.tup(s).elems) r = Math.addExact(r, ((IntValue) v).val);
    return IntValue.gen(r);
  }
}
