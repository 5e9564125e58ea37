import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

/** Java twins of spec/Dag.tla; generated caches are kept for reuse. */
public class Dag {
  static byte[] k512(byte[] m) { return Keccak.sponge(m, 72, 1, 64); }
  static int[] ints(byte[] b) {
    int[] r = new int[b.length / 4];
    for (int i = 0; i < r.length; i++)
      r[i] = b[4 * i] & 255 | (b[4 * i + 1] & 255) << 8 | (b[4 * i + 2] & 255) << 16 | (b[4 * i + 3] & 255) << 24;
    return r;
  }
  static byte[] bytes(int[] w) {
    byte[] r = new byte[4 * w.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) (w[i / 4] >>> (8 * (i % 4)));
    return r;
  }
  /** Keccak-512 of the 64 bytes in s[o..o+7], written to d[p..p+7] */
  static void k512(long[] s, int o, long[] d, int p, long[] st, long[] tmp) {
    System.arraycopy(s, o, st, 0, 8);
    Arrays.fill(st, 8, 25, 0);
    st[8] = 0x8000000000000001L;
    Keccak.f1600(st, tmp);
    System.arraycopy(st, 0, d, p, 8);
  }
  static int[] build(byte[] seed, int rows, int rounds) {
    long[] t = new long[8 * rows], st = new long[25], tmp = new long[25], x = new long[8];
    int[] first = ints(k512(seed));
    for (int i = 0; i < 8; i++) t[i] = first[2 * i] & 0xffffffffL | (long) first[2 * i + 1] << 32;
    for (int i = 1; i < rows; i++) k512(t, 8 * (i - 1), t, 8 * i, st, tmp);
    for (int r = 0; r < rounds; r++)
      for (int j = 0; j < rows; j++) {
        int a = 8 * ((j + rows - 1) % rows), b = 8 * Integer.remainderUnsigned((int) t[8 * j], rows);
        for (int i = 0; i < 8; i++) x[i] = t[a + i] ^ t[b + i];
        k512(x, 0, t, 8 * j, st, tmp);
      }
    int[] out = new int[16 * rows];
    for (int i = 0; i < out.length; i++) out[i] = (int) (t[i / 2] >>> (32 * (i % 2)));
    return out;
  }
  static final Map<String, int[]> MEMO = new LinkedHashMap<String, int[]>(16, 0.75f, true) {
    protected boolean removeEldestEntry(Map.Entry<String, int[]> e) { return size() > 64; }
  };
  static final Map<String, Object> LOCKS = new HashMap<>();
  static Value field(Value rec, String name) {
    RecordValue r = (RecordValue) rec.toRcd();
    for (int i = 0; i < r.names.length; i++) if (r.names[i].toString().equals(name)) return r.values[i];
    throw new RuntimeException("no field " + name);
  }
  static int[] cacheOf(byte[] seed, int rows, int rounds) {
    String key = Arrays.toString(seed) + rows + "/" + rounds;
    Object lock;
    synchronized (MEMO) { lock = LOCKS.computeIfAbsent(key, k -> new Object()); }
    synchronized (lock) {
      int[] c;
      synchronized (MEMO) { c = MEMO.get(key); }
      if (c == null) {
        c = build(seed, rows, rounds);
        synchronized (MEMO) { MEMO.put(key, c); }
      }
      return c;
    }
  }
  static int[] cacheOf(Value ds) {
    return cacheOf(Words.tobytes(field(ds, "seed")), Words.in(field(ds, "rows")), Words.in(field(ds, "rounds")));
  }
  static int[] item(int[] c, int idx, int parents) {
    int rows = c.length / 16, o = 16 * Integer.remainderUnsigned(idx, rows);
    int[] m = Arrays.copyOfRange(c, o, o + 16);
    m[0] ^= idx;
    m = ints(k512(bytes(m)));
    for (int i = 0; i < parents; i++) {
      int p = 16 * Integer.remainderUnsigned((idx ^ i) * 0x01000193 ^ m[i % 16], rows);
      for (int k = 0; k < 16; k++) m[k] = m[k] * 0x01000193 ^ c[p + k];
    }
    return ints(k512(bytes(m)));
  }
  static Value[] vals(int[] w) {
    Value[] r = new Value[w.length];
    for (int i = 0; i < r.length; i++) r[i] = Words.word(w[i] & 0xffffffffL, 2);
    return r;
  }
  public static Value Item(Value ds, Value idx) {
    return new TupleValue(vals(item(cacheOf(ds), (int) Words.lng(idx), Words.in(field(ds, "parents")))));
  }
  public static Value L1Words(Value ds, Value words) {
    int[] c = cacheOf(ds);
    int n = Words.in(words), par = Words.in(field(ds, "parents"));
    Value[] r = new Value[n / 16 * 16];
    for (int i = 0; i < n / 16; i++) System.arraycopy(vals(item(c, i, par)), 0, r, 16 * i, 16);
    return new TupleValue(r);
  }
  public static Value CacheWords(Value seed, Value rows, Value rounds) {
    int[] c = cacheOf(Words.tobytes(seed), Words.in(rows), Words.in(rounds));
    Value[] r = new Value[c.length / 16];
    for (int i = 0; i < r.length; i++) r[i] = new TupleValue(vals(Arrays.copyOfRange(c, 16 * i, 16 * i + 16)));
    return new TupleValue(r);
  }
  static final List<byte[]> ITER = new ArrayList<>(List.of(new byte[32]));
  public static Value KeccakIter(Value nv) {
    int n = Words.in(nv);
    synchronized (ITER) {
      while (ITER.size() <= n) ITER.add(Keccak.sponge(ITER.get(ITER.size() - 1), 136, 1, 32));
      return Words.bytes(ITER.get(n));
    }
  }
  static boolean prime(long n) {
    if (n < 2) return false;
    if (n % 2 == 0) return n == 2;
    for (long d = 3; d * d <= n; d += 2) if (n % d == 0) return false;
    return true;
  }
  static final int[] WITNESSES = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37};
  static boolean prime(BigInteger n) {
    if (n.bitLength() < 31) return prime(n.longValue());
    if (!n.testBit(0)) return false;
    BigInteger n1 = n.subtract(BigInteger.ONE);
    int s = n1.getLowestSetBit();
    for (int b : WITNESSES) {
      BigInteger x = BigInteger.valueOf(b).modPow(n1.shiftRight(s), n);
      boolean ok = x.equals(BigInteger.ONE);
      for (int k = 0; k < s && !ok; k++, x = x.multiply(x).mod(n)) ok = x.equals(n1);
      if (!ok) return false;
    }
    return true;
  }
  public static Value PrimeDownW(Value nv) {
    BigInteger n = Words.big(nv);
    while (!prime(n)) n = n.subtract(BigInteger.TWO);
    return Words.wordB(n, 4);
  }
  public static Value PrimeDown(Value nv) {
    int n = Words.in(nv);
    while (!prime(n)) n -= 2;
    return IntValue.gen(n);
  }
}
