// Java realisation of the operators of module Num (numlog/Num.tla): log-space
// numbers are IEEE doubles carried as a pair of 32-bit words, TLC's integers
// being 32 bits wide.  TLC picks this class up because it has the module's name.
// MCNum.tla checks these operators against exact rationals.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Num {
  static Value mk(double d) {
    long b = Double.doubleToRawLongBits(d);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b)});
  }
  static double get(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }
  static String str(Value s) { return ((StringValue) s).getVal().toString(); }
  static int in(Value v) { return ((IntValue) v).val; }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double parse(String s) {
    if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
    if (s.equals("inf")) return Double.POSITIVE_INFINITY;
    if (s.equals("nan") || s.equals("-nan")) return Double.NaN;
    return Double.parseDouble(s);
  }
  static double add(double a, double b) {
    if (a == Double.NEGATIVE_INFINITY) return b;
    if (b == Double.NEGATIVE_INFINITY) return a;
    double h = Math.max(a, b), l = Math.min(a, b);
    return h + Math.log1p(Math.exp(l - h));
  }
  static double mul(double a, double b) {
    if (a == Double.NEGATIVE_INFINITY || b == Double.NEGATIVE_INFINITY) return Double.NEGATIVE_INFINITY;
    return a + b;
  }
  static boolean near(double a, double b, int k) {
    if (Double.isNaN(a) || Double.isNaN(b)) return false;
    if (Double.isInfinite(a) || Double.isInfinite(b)) return a == b;
    return Math.abs(a - b) <= k * 1e-10 + 1e-9 * (1 + Math.abs(b));
  }

  public static Value NLog(Value s) { return mk(parse(str(s))); }
  public static Value NDec(Value s) { return mk(Math.log(parse(str(s)))); }
  public static Value NIsNan(Value a) { return bool(Double.isNaN(get(a))); }
  public static Value NAdd(Value a, Value b) { return mk(add(get(a), get(b))); }
  public static Value NMul(Value a, Value b) { return mk(mul(get(a), get(b))); }
  public static Value NDiv(Value a, Value b) {
    double x = get(a), y = get(b);
    if (x == Double.NEGATIVE_INFINITY && y != x) return mk(x);
    return mk(x - y);
  }
  public static Value NOfInt(Value a) { return mk(Math.log(in(a))); }
  public static Value NNear(Value a, Value b, Value k) { return bool(near(get(a), get(b), in(k))); }
  public static Value NLeq(Value a, Value b, Value k) {
    double x = get(a), y = get(b);
    if (Double.isNaN(x) || Double.isNaN(y)) return bool(false);
    return bool(x <= y || near(x, y, in(k)));
  }
  public static Value NLess(Value a, Value b) { return bool(get(a) < get(b)); }
  public static Value NEq(Value a, Value b) { return bool(get(a) == get(b)); }
  public static Value NStr(Value a) { return new StringValue(String.valueOf(get(a))); }

  // decimal numbers (not logarithms)
  public static Value DVal(Value s) { return mk(parse(str(s))); }
  public static Value DOfInt(Value a) { return mk(in(a)); }
  public static Value DAdd(Value a, Value b) { return mk(get(a) + get(b)); }
  public static Value DSub(Value a, Value b) { return mk(get(a) - get(b)); }
  public static Value DMul(Value a, Value b) { return mk(get(a) * get(b)); }
  public static Value DDiv(Value a, Value b) { return mk(get(a) / get(b)); }
  public static Value DLn(Value a) { return mk(Math.log(get(a))); }
  public static Value DExp(Value a) { return mk(Math.exp(get(a))); }
  public static Value DSqrt(Value a) { return mk(Math.sqrt(get(a))); }
  public static Value DAbs(Value a) { return mk(Math.abs(get(a))); }
  public static Value DLess(Value a, Value b) { return bool(get(a) < get(b)); }
  public static Value DNear(Value a, Value b, Value k) {
    double x = get(a), y = get(b);
    if (Double.isNaN(x) || Double.isNaN(y)) return bool(false);
    if (x == y) return bool(true);
    return bool(Math.abs(x - y) <= in(k) * 1e-10 * (1 + Math.abs(y)));
  }

  // big naturals as decimal strings
  public static Value BAdd(Value a, Value b) {
    return new StringValue(new BigInteger(str(a)).add(new BigInteger(str(b))).toString());
  }
  public static Value BMul(Value a, Value b) {
    return new StringValue(new BigInteger(str(a)).multiply(new BigInteger(str(b))).toString());
  }
  public static Value BOfInt(Value a) { return new StringValue(String.valueOf(in(a))); }

  // tokens of text files
  static boolean isInt(String s) {
    try {
      new BigInteger(s.startsWith("+") ? s.substring(1) : s);
      return true;
    } catch (NumberFormatException e) {
      return false;
    }
  }
  public static Value TIsInt(Value s) {
    try {
      String t = str(s);
      Integer.parseInt(t);
      return bool(true);
    } catch (NumberFormatException e) {
      return bool(false);
    }
  }
  public static Value TInt(Value s) { return IntValue.gen(Integer.parseInt(str(s))); }
  public static Value TIsNum(Value s) {
    try {
      parse(str(s));
      return bool(true);
    } catch (NumberFormatException e) {
      return bool(false);
    }
  }
  public static Value TChars(Value s) {
    String t = str(s);
    Value[] r = new Value[t.length()];
    for (int i = 0; i < r.length; ++i) r[i] = IntValue.gen(t.charAt(i));
    return new TupleValue(r);
  }
}
