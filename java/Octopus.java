import tlc2.value.impl.*;

/** Java twins of spec/Octopus.tla. */
public class Octopus {
  static final long M = 1032193;
  public static Value MulMod(Value a, Value b) { return IntValue.gen((int) ((long) Words.in(a) * Words.in(b) % M)); }
  public static Value EvalPoly(Value d, Value x) {
    Value[] c = Words.el(d);
    long acc = 0, xv = Words.in(x);
    for (int i = c.length - 1; i >= 0; i--) acc = (acc * xv + Words.in(c[i])) % M;
    return IntValue.gen((int) acc);
  }
}
