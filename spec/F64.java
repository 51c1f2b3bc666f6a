import tlc2.value.impl.*;
import util.UniqueString;

/** Java overrides of module F64: IEEE-754 doubles as <<hi32, lo32>>. */
public class F64 {
  static Value mk(double d) {
    if (d == 0) d = 0.0;
    long b = Double.doubleToLongBits(d);
    return new TupleValue(new Value[] { IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b) });
  }
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    TupleValue t = (TupleValue) (v instanceof TupleValue ? v : v.toTuple());
    return Double.longBitsToDouble(((long) ((IntValue) t.elems[0]).val << 32)
        | (((IntValue) t.elems[1]).val & 0xffffffffL));
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value FAdd(Value a, Value b) { return mk(d(a) + d(b)); }
  public static Value FSub(Value a, Value b) { return mk(d(a) - d(b)); }
  public static Value FMul(Value a, Value b) { return mk(d(a) * d(b)); }
  public static Value FDiv(Value a, Value b) { return mk(d(a) / d(b)); }
  public static Value FNeg(Value a) { return mk(-d(a)); }
  public static Value FAbs(Value a) { return mk(Math.abs(d(a))); }
  public static Value FSqrt(Value a) { return mk(Math.sqrt(d(a))); }
  public static Value FCos(Value a) { return mk(Math.cos(d(a))); }
  public static Value FSin(Value a) { return mk(Math.sin(d(a))); }
  public static Value FExp(Value a) { return mk(Math.exp(d(a))); }
  public static Value FLn(Value a) { return mk(Math.log(d(a))); }
  public static Value FAcos(Value a) { return mk(Math.acos(d(a))); }
  public static Value FAtan2(Value a, Value b) { return mk(Math.atan2(d(a), d(b))); }
  /** Standard normal distribution function (series / continued fraction). */
  static double ncdf(double x) {
    double z = Math.abs(x);
    if (z > 38) return x > 0 ? 1 : 0;
    double r;
    if (z < 5) {            // series for Phi(z) - 1/2
      double t = z, s = z;
      for (int k = 1; k < 200 && Math.abs(t) > 1e-18 * Math.abs(s); k++) { t *= z * z / (2 * k + 1); s += t; }
      r = 0.5 - s * Math.exp(-z * z / 2) / Math.sqrt(2 * Math.PI);
    } else {                // continued fraction for the tail
      double f = 0;
      for (int k = 60; k > 0; k--) f = k / (z + f);
      r = Math.exp(-z * z / 2) / Math.sqrt(2 * Math.PI) / (z + f);
    }
    return x > 0 ? 1 - r : r;
  }
  public static Value FErf(Value a) { return mk(ncdf(d(a))); }
  public static Value FLt(Value a, Value b) { return bool(d(a) < d(b)); }
  public static Value FLe(Value a, Value b) { return bool(d(a) <= d(b)); }
  public static Value FFinite(Value a) { return bool(Double.isFinite(d(a))); }
  public static Value FInt(Value n) { return mk(((IntValue) n).val); }
  static int clip(double x) {
    if (Double.isNaN(x)) return Integer.MIN_VALUE;
    return (int) Math.max(-2e9, Math.min(2e9, x));
  }
  public static Value FRound(Value a) { return IntValue.gen(clip(Math.rint(d(a)))); }
  public static Value FFloor(Value a) { return IntValue.gen(clip(Math.floor(d(a)))); }
  public static Value FClose(Value a, Value b, Value tol) {
    double x = d(a), y = d(b);
    return bool(Math.abs(x - y) <= d(tol) * Math.max(1, Math.max(Math.abs(x), Math.abs(y))));
  }
  static Double parse(String s) {
    if (s.isEmpty()) return null;
    char c = s.charAt(0), z = s.charAt(s.length() - 1);
    if (s.equals("inf") || s.equals("+inf")) return Double.POSITIVE_INFINITY;
    if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
    if (s.equals("NaN") || s.equals("-NaN")) return Double.NaN;
    if (!(Character.isDigit(c) || c == '-' || c == '.') || Character.isLetter(z)) return null;
    try { return Double.parseDouble(s); } catch (NumberFormatException e) { return null; }
  }
  public static Value FVal(Value s) {
    Double x = parse(((StringValue) s).val.toString());
    if (x == null) throw new RuntimeException("FVal: not a number: " + s);
    return mk(x);
  }
  public static Value FVals(Value v) {
    if (v instanceof StringValue) {
      Double x = parse(((StringValue) v).val.toString());
      return x == null ? v : mk(x);
    }
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems;
      Value[] r = new Value[e.length];
      for (int i = 0; i < e.length; i++) r[i] = FVals(e[i]);
      return new TupleValue(r);
    }
    if (v instanceof RecordValue) {
      RecordValue q = (RecordValue) v;
      Value[] r = new Value[q.values.length];
      for (int i = 0; i < r.length; i++) r[i] = FVals(q.values[i]);
      return new RecordValue(q.names, r, q.isNormalized());
    }
    if (v instanceof IntValue || v instanceof BoolValue) return v;
    Value t = (Value) v.toTuple();
    if (t != null) return FVals(t);
    Value q = (Value) v.toRcd();
    if (q != null) return FVals(q);
    return v;
  }
  public static Value FIsNum(Value v) {
    if (!(v instanceof TupleValue)) return BoolValue.ValFalse;
    Value[] e = ((TupleValue) v).elems;
    return bool(e.length == 2 && e[0] instanceof IntValue && e[1] instanceof IntValue);
  }
  public static Value FSum(Value s) {
    TupleValue t = (TupleValue) (s instanceof TupleValue ? s : s.toTuple());
    double x = 0;
    for (int i = 0; i < t.elems.length; i++) x += d(t.elems[i]);
    return mk(x);
  }
  public static Value FStr(Value s) { return new StringValue(Double.toString(d(s))); }
  public static Value FSorted(Value s) {
    TupleValue t = (TupleValue) (s instanceof TupleValue ? s : s.toTuple());
    double[] x = new double[t.elems.length];
    for (int i = 0; i < x.length; i++) x[i] = d(t.elems[i]);
    java.util.Arrays.sort(x);
    Value[] r = new Value[x.length];
    for (int i = 0; i < x.length; i++) r[i] = mk(x[i]);
    return new TupleValue(r);
  }
}
