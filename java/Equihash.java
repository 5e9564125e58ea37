import tlc2.value.impl.*;

/** Java twin of the bit extraction of spec/Equihash.tla. */
public class Equihash {
  public static Value BitsBE(Value b, Value ov, Value lv) {
    Value[] e = Words.el(b);
    int o = Words.in(ov), n = Words.in(lv), v = 0;
    for (int i = o; i < o + n; i++) v = 2 * v + (Words.in(e[i / 8]) >> (7 - i % 8) & 1);
    return IntValue.gen(v);
  }
}
