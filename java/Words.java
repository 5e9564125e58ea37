import java.math.BigInteger;
import tlc2.value.impl.*;

/** Java twins of the operators of spec/Words.tla; see the remark there. */
public class Words {
  static final IntValue[] SMALL = new IntValue[65536];
  static { for (int i = 0; i < 65536; i++) SMALL[i] = IntValue.gen(i); }
  static Value iv(int n) { return n >= 0 && n < 65536 ? SMALL[n] : IntValue.gen(n); }
  static int in(Value v) { return ((IntValue) v).val; }
  static Value[] el(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("sequence expected: " + v);
    return ((TupleValue) t).elems;
  }
  static int[] ints(Value v) {
    Value[] e = el(v);
    int[] r = new int[e.length];
    for (int i = 0; i < r.length; i++) r[i] = in(e[i]);
    return r;
  }
  static Value seq(int[] a) {
    Value[] r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = iv(a[i]);
    return new TupleValue(r);
  }
  static Value bytes(byte[] a) {
    Value[] r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = iv(a[i] & 255);
    return new TupleValue(r);
  }
  static byte[] tobytes(Value v) {
    Value[] e = el(v);
    byte[] r = new byte[e.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) in(e[i]);
    return r;
  }
  static long lng(Value v) {
    Value[] e = el(v);
    long r = 0;
    for (int i = 0; i < e.length && i < 4; i++) r |= (in(e[i]) & 0xffffL) << (16 * i);
    return r;
  }
  static Value word(long x, int n) {
    Value[] r = new Value[n];
    for (int i = 0; i < n; i++) r[i] = i < 4 ? SMALL[(int) ((x >>> (16 * i)) & 0xffff)] : SMALL[0];
    return new TupleValue(r);
  }
  static BigInteger big(Value v) {
    Value[] e = el(v);
    byte[] b = new byte[2 * e.length + 1];
    for (int i = 0; i < e.length; i++) {
      int x = in(e[i]);
      b[b.length - 1 - 2 * i] = (byte) x;
      b[b.length - 2 - 2 * i] = (byte) (x >> 8);
    }
    return new BigInteger(b);
  }
  static Value wordB(BigInteger x, int n) {
    x = x.and(BigInteger.ONE.shiftLeft(16 * n).subtract(BigInteger.ONE));
    byte[] b = x.toByteArray();
    Value[] r = new Value[n];
    for (int i = 0; i < n; i++) {
      int p = b.length - 1 - 2 * i;
      int lo = p >= 0 ? b[p] & 255 : 0, hi = p >= 1 ? b[p - 1] & 255 : 0;
      r[i] = SMALL[lo | hi << 8];
    }
    return new TupleValue(r);
  }
  static long mask(int n) { return n >= 4 ? -1L : (1L << (16 * n)) - 1; }

  public static Value XorW(Value a, Value b) {
    Value[] x = el(a), y = el(b);
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = SMALL[in(x[i]) ^ in(y[i])];
    return new TupleValue(r);
  }
  public static Value AndW(Value a, Value b) {
    Value[] x = el(a), y = el(b);
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = SMALL[in(x[i]) & in(y[i])];
    return new TupleValue(r);
  }
  public static Value OrW(Value a, Value b) {
    Value[] x = el(a), y = el(b);
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = SMALL[in(x[i]) | in(y[i])];
    return new TupleValue(r);
  }
  public static Value NotW(Value a) {
    Value[] x = el(a);
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = SMALL[65535 - in(x[i])];
    return new TupleValue(r);
  }
  public static Value AddW(Value a, Value b) {
    int n = el(a).length;
    return n <= 4 ? word(lng(a) + lng(b), n) : wordB(big(a).add(big(b)), n);
  }
  public static Value SubW(Value a, Value b) {
    int n = el(a).length;
    return n <= 4 ? word(lng(a) - lng(b), n) : wordB(big(a).subtract(big(b)), n);
  }
  public static Value MulW(Value a, Value b) {
    int n = el(a).length;
    return n <= 4 ? word(lng(a) * lng(b), n) : wordB(big(a).multiply(big(b)), n);
  }
  public static Value RotlW(Value a, Value sv) {
    int n = el(a).length, bits = 16 * n, s = in(sv) % bits;
    if (n == 4) return word(Long.rotateLeft(lng(a), s), 4);
    if (n == 2) return word(Integer.rotateLeft((int) lng(a), s), 2);
    BigInteger x = big(a);
    return wordB(x.shiftLeft(s).or(x.shiftRight(bits - s)), n);
  }
  public static Value RotrW(Value a, Value sv) {
    int n = el(a).length, bits = 16 * n, s = in(sv) % bits;
    return RotlW(a, IntValue.gen((bits - s) % bits));
  }
  public static Value ShlW(Value a, Value sv) {
    int n = el(a).length, s = in(sv);
    return wordB(big(a).shiftLeft(s), n);
  }
  public static Value ShrW(Value a, Value sv) {
    int n = el(a).length, s = in(sv);
    return wordB(big(a).shiftRight(s), n);
  }
  public static Value ModW(Value a, Value m) {
    int n = el(a).length;
    if (n <= 4) return IntValue.gen((int) Long.remainderUnsigned(lng(a), in(m)));
    return IntValue.gen(big(a).mod(BigInteger.valueOf(in(m))).intValue());
  }
  public static Value DivSmall(Value a, Value m) {
    int n = el(a).length;
    return wordB(big(a).divide(BigInteger.valueOf(in(m))), n);
  }
  public static Value LtW(Value a, Value b) {
    return big(a).compareTo(big(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value PopCount(Value a) { return iv(big(a).bitCount()); }
  public static Value Clz(Value a) { return iv(16 * el(a).length - big(a).bitLength()); }
  public static Value LE(Value b, Value o, Value nv) {
    Value[] e = el(b);
    int off = in(o), n = in(nv);
    Value[] r = new Value[n];
    for (int i = 0; i < n; i++) r[i] = SMALL[in(e[off + 2 * i]) + 256 * in(e[off + 2 * i + 1])];
    return new TupleValue(r);
  }
  public static Value BE(Value b, Value o, Value nv) {
    Value[] e = el(b);
    int off = in(o), n = in(nv);
    Value[] r = new Value[n];
    for (int i = 0; i < n; i++) {
      int p = off + 2 * (n - 1 - i);
      r[i] = SMALL[in(e[p + 1]) + 256 * in(e[p])];
    }
    return new TupleValue(r);
  }
  public static Value BytesLE(Value w) {
    int[] x = ints(w);
    Value[] r = new Value[2 * x.length];
    for (int i = 0; i < x.length; i++) { r[2 * i] = SMALL[x[i] & 255]; r[2 * i + 1] = SMALL[x[i] >> 8]; }
    return new TupleValue(r);
  }
  public static Value BytesBE(Value w) {
    int[] x = ints(w);
    int m = 2 * x.length;
    Value[] r = new Value[m];
    for (int i = 0; i < x.length; i++) { r[m - 1 - 2 * i] = SMALL[x[i] & 255]; r[m - 2 - 2 * i] = SMALL[x[i] >> 8]; }
    return new TupleValue(r);
  }
  public static Value WordsLE(Value b, Value nv) {
    int n = in(nv), k = el(b).length / (2 * n);
    Value[] r = new Value[k];
    for (int i = 0; i < k; i++) r[i] = LE(b, IntValue.gen(2 * n * i), nv);
    return new TupleValue(r);
  }
  public static Value WordsBE(Value b, Value nv) {
    int n = in(nv), k = el(b).length / (2 * n);
    Value[] r = new Value[k];
    for (int i = 0; i < k; i++) r[i] = BE(b, IntValue.gen(2 * n * i), nv);
    return new TupleValue(r);
  }
  public static Value BytesOfLE(Value ws) {
    Value[] w = el(ws);
    if (w.length == 0) return new TupleValue(new Value[0]);
    int m = 2 * el(w[0]).length;
    Value[] r = new Value[m * w.length];
    for (int i = 0; i < w.length; i++) System.arraycopy(((TupleValue) BytesLE(w[i])).elems, 0, r, m * i, m);
    return new TupleValue(r);
  }
  public static Value XorBytes(Value a, Value b) {
    Value[] x = el(a), y = el(b);
    Value[] r = new Value[Math.min(x.length, y.length)];
    for (int i = 0; i < r.length; i++) r[i] = SMALL[in(x[i]) ^ in(y[i])];
    return new TupleValue(r);
  }
  public static Value PadTo(Value b, Value nv) {
    Value[] x = el(b);
    Value[] r = new Value[in(nv)];
    for (int i = 0; i < r.length; i++) r[i] = i < x.length ? x[i] : SMALL[0];
    return new TupleValue(r);
  }
  public static Value Reverse8(Value b) {
    Value[] x = el(b);
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = x[x.length - 1 - i];
    return new TupleValue(r);
  }
}
